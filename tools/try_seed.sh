#!/bin/bash
# try_seed.sh ID [notest]: confirms a planted bug (demo 0 without, nonzero with; stable tests pass) and runs its property's check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/dev/null 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/demo.out 2>&1; b=$?
tests=skipped
if [ "$2" != notest ]; then
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tests=BUILDFAIL
  bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
  [ $tests = skipped ] && tests=$(python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in o['passed']]
print('ok' if not m else 'FAILS:'+','.join(m[:4]))")
fi
(cd /verif && timeout 900 python3 run_check.py $prop quick >/tmp/check.out 2>&1); c=$?
git checkout -q -- .
v=$(grep -c "^VIOLATION property=$prop" /tmp/check.out)
echo "$id $prop demo=$a/$b tests=$tests check=$c violation=$v"
[ $c = 1 ] && grep -m1 "^message" /tmp/check.out | cut -c1-200
