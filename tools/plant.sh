#!/bin/bash
# plant.sh ID...: confirm a seeded bug in a scratch copy (demo passes before, fails
# after, stable tests pass) and run this property's quick check against the copy.
for ID in "$@"; do
D=/verif/seeded/$ID
W=/tmp/plant.$ID; rm -rf "$W"; cp -a /repo "$W"; rm -rf "$W/.git/worktrees"
DD=/tmp/plantdemo.$ID; rm -rf "$DD"; mkdir -p "$DD"; cp -r "$D"/. "$DD"/; rm -f "$DD"/*.diff "$DD"/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
. /opt/vp/env.sh >/dev/null 2>&1
cd "$W"
bash "$DD/demo.sh" >/tmp/plant.$ID.clean 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; continue; }
go build ./... ./cmd/pap/... || { echo "$ID: does not build"; continue; }
bash "$DD/demo.sh" >/tmp/plant.$ID.bug 2>&1; b=$?
if [ -z "$NOTEST" ]; then
go test -json -vet=off -count=1 -timeout 10m ./... ./cmd/pap/... > /tmp/plant.$ID.json 2>/dev/null
python3 /opt/vp/results.py /tmp/plant.$ID.res "gojson:/tmp/plant.$ID.json" >/dev/null 2>&1
m=$(python3 -c "
import json
a=json.load(open('/tmp/plant.$ID.res')); b=json.load(open('/opt/vp/BASELINE.json'))
print([t for t in b['stable'] if t not in a['passed']][:3])")
fi
s=skipped
if [ -z "$NOCHECK" ]; then
SIM_REPO=$W bash /verif/check.sh $P quick >/tmp/plant.$ID.check 2>&1; s=$?
fi
echo "$ID prop=$P demo clean=$a bug=$b missing=$m check=$s $(grep -E '^sim: run|VIOLATION' /tmp/plant.$ID.check 2>/dev/null | cut -c1-260 | head -2)"
cd /; rm -rf "$W" "$DD"
done
