#!/bin/bash
# Builds the harness from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build evidence
(cd harness && go build -o ../.build/harness .)
