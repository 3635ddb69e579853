#!/bin/bash
# seedtest.sh DIR : confirms a planted bug (builds, stable tests pass, demo 0 without / nonzero with) and runs its property's check against it
set -u
S=$(realpath "$1"); ID=$(basename "$S")
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "$ID: repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "${NODEMO:-0}" = 0 ]; then
bash "$S/demo.sh" >/tmp/seed.$ID.base 2>&1; r0=$?
fi
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 9; }
if [ "${NODEMO:-0}" = 0 ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.build 2>&1 || { echo "$ID: BUILD FAILS"; tail -20 /tmp/seed.$ID.build; exit 9; }
bash /opt/vp/test.sh /tmp/seed.$ID.json >/dev/null 2>&1
miss=$(python3 -c "
import json
t=json.load(open('/tmp/seed.$ID.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(t['passed'])))")
bash "$S/demo.sh" >/tmp/seed.$ID.demo 2>&1; r1=$?
fi
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])")
[ -n "$cmd" ] || cmd="python3 sa/run.py $P"
cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" >/tmp/seed.$ID.check 2>&1; rc=$?
echo "$ID prop=$P base=${r0:-?} bug=${r1:-?} tests_missing=${miss:-?} check_rc=$rc $(grep -m1 -h VIOLATION /tmp/seed.$ID.check | cut -c1-160)"
