#!/bin/bash
# tools/seedtest.sh ID [notest]: validate a planted change in a scratch copy of /repo and run its property's quick check on it.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/seed-$id
[ -d "$w" ] && rm -rf "/tmp/seed-$id"
cp -a /repo "$w"; cp -a "$d" "/tmp/seed-$id-demo"; rm -f "/tmp/seed-$id-demo/patch.diff" "/tmp/seed-$id-demo/meta.json"
. /opt/vp/env.sh
export PYTHONPATH="$w"
( cd "$w" && timeout 300 bash "/tmp/seed-$id-demo/demo.sh" >/tmp/seed-$id.clean 2>&1 ); echo "$id demo clean: $?"
git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; }
( cd "$w" && timeout 300 bash "/tmp/seed-$id-demo/demo.sh" >/tmp/seed-$id.bug 2>&1 ); echo "$id demo patched: $?"
if [ "${2:-}" != notest ]; then
  ( cd "$w" && python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --doctest-modules --mpl --continue-on-collection-errors --basetemp="$w/../seed-$id-tmp" --benchmark-storage="/tmp/seed-$id-bench" -o junit_family=xunit2 --junitxml="/tmp/seed-$id.xml" >/tmp/seed-$id.log 2>&1 )
  tail -1 /tmp/seed-$id.log
  /usr/bin/python3 /opt/vp/results.py /tmp/seed-$id.json "junit:/tmp/seed-$id.xml"
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$id.json'))
st=set(b['stable']); print('$id stable tests broken:', sorted(st-set(r['passed']))[:5], len(st-set(r['passed'])))
P
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd /verif && unset PYTHONPATH && VH_REPO="$w" VERIF_SEED=1 ./run "$p" quick >/tmp/seed-$id.check 2>&1 ); echo "$id check $p: $?"; grep -c VIOLATION /tmp/seed-$id.check; grep -m3 VIOLATION /tmp/seed-$id.check
rm -rf "/tmp/seed-$id" "/tmp/seed-$id-demo" "/tmp/seed-$id-tmp" "/tmp/seed-$id-bench" "/tmp/seed-$id.xml" "/tmp/seed-$id.json"
