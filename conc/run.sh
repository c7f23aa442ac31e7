#!/bin/bash
# conc/run.sh ID : copy /repo's current sources with the concurrency
# constructs replaced by the controlled scheduler's, build the explorer on them
# with the race detector and run one check.
cd "$(dirname "$0")" || exit 2
id="$1"
. /opt/vp/env.sh
root="$(cd .. && pwd)"
[ -n "$VERIF_GOCACHE" ] && export GOCACHE="$VERIF_GOCACHE"
export VERIF_ROOT="$root" GOFLAGS=-mod=mod
repo="${VERIF_REPO:-/repo}"
b="$root/.build"
gen="$b/gen"
mkdir -p "$b" "$root/evidence"
inconclusive() {
  python3 - "$id" "$1" <<'P'
import json,sys,os
i,why=sys.argv[1:3]
json.dump({"property":i,"tier":os.environ.get("VERIF_TIER","quick") or "quick","seed":int(os.environ.get("VERIF_SEED") or 0),"level":"model_checking","coverage":{"exhaustive":False,"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":["(not explored: %s)"%why]},"wall_s":0.0,"violations":0,"assumptions":["the sources could not be rewritten for the controlled scheduler; nothing was explored"]},open(os.environ["VERIF_ROOT"]+"/evidence/%s.json"%i,"w"),indent=1)
print("INCONCLUSIVE property=%s %s; nothing explored"%(i,why))
P
  exit 0
}
exec 9>"$b/conc.lock"; flock 9
(cd "$repo" && GOFLAGS=-mod=readonly go build ./... ) > "$b/conc-build.log" 2>&1 || { cat "$b/conc-build.log"; echo "the repository does not build"; exit 2; }
rm -rf "$gen.new" && mkdir -p "$gen.new"
(cd gen && go build -o "$b/gentool" .) > "$b/conc-build.log" 2>&1 || { cat "$b/conc-build.log"; exit 2; }
if ! GOFLAGS=-mod=readonly "$b/gentool" "$repo" "$gen.new" github.com/ThinkiumGroup/go-common=common github.com/hashicorp/golang-lru=lru github.com/sirupsen/logrus=logrus > "$b/gen.log" 2>&1; then
  cat "$b/gen.log"; inconclusive "rewriting failed"
fi
rm -rf "$gen" && mv "$gen.new" "$gen"
cd worker
cp go.mod.in "$gen/worker.mod"
sed -i "s#@GEN@#$gen#g; s#@ROOT@#$root#g" "$gen/worker.mod"
cat "$repo/go.sum" "$root/harness/go.sum" | sort -u > "$gen/worker.sum"
if ! go build -modfile="$gen/worker.mod" -race "-gcflags=verif/sched/...=-race=false -l" -o "$b/conc" . > "$b/conc-build.log" 2>&1; then
  cat "$b/gen.log" "$b/conc-build.log"; inconclusive "the rewritten sources do not build"
fi
exec 9>&-
exec "$b/conc" "$id"
