#!/bin/bash
# seedcheck.sh ID : confirms a planted bug in a scratch copy of /repo: the patch applies, builds, the stable
# tests pass, the demo passes without and fails with it. (Development tool, no check uses it.)
id=$1; S=/verif/seeded/$id; W=/tmp/seedwork/$id
. /opt/vp/env.sh
mkdir -p /tmp/seedwork; [ -d "$W" ] && rm -r "$W"
cp -a /repo "$W" || exit 1
cd "$W" || exit 1
D=/tmp/seedwork/demo-$id; [ -d "$D" ] && rm -r "$D"; mkdir "$D"; cp -a "$S"/. "$D"; rm -f "$D"/patch.diff "$D"/meta.json
echo "== demo, unchanged"; timeout 300 bash "$D/demo.sh" > /tmp/seedwork/$id.clean.log 2>&1 && echo pass || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/seedwork/$id.clean.log; }
git apply "$S/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "NO BUILD"; exit 1; }
echo "== demo, patched"; timeout 300 bash "$D/demo.sh" > /tmp/seedwork/$id.bug.log 2>&1 && echo "DEMO PASSES WITH BUG" || { echo fails as it should; grep -m3 -i "fail\|panic\|_test.go" /tmp/seedwork/$id.bug.log; }
if [ "$2" != notest ]; then
 pk=$(git diff --name-only | xargs -n1 dirname | sort -u | sed 's|^|./|')
 # every package that depends on the changed ones
 exec 9>/tmp/seedwork/lock; flock 9
 rm -rf /root/temp/dvppdata/ldb
 go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedwork/$id.json 2>/dev/null
 python3 /opt/vp/results.py /tmp/seedwork/$id.res.json "gojson:/tmp/seedwork/$id.json"
 python3 - "$id" <<'P'
import json,sys
r=json.load(open('/tmp/seedwork/%s.res.json'%sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(r.get('passed',[])) 
m=[t for t in b['stable'] if t not in p]
print("== stable tests not passing:",len(m),m[:5])
P
fi
rm -r "$W" "$D"
