#!/bin/bash
# check.sh ID : build the harness against /repo's current tree and run one check.
# VERIF_TIER=quick|thorough, VERIF_SEED, VERIF_BUDGET_S.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT="$PWD"; export VERIF_ROOT
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build evidence
id="$1"
case "$id" in
C0*) exec bash conc/run.sh "$id" ;;
esac
if ! (cd harness && go build -o ../.build/harness . ) > .build/build.log 2>&1; then
  cat .build/build.log; echo "cannot build the harness against /repo"; exit 2
fi
exec .build/harness "$id"
