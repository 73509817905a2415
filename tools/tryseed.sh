#!/bin/bash
# tryseed.sh <seed dir name> [property...]: confirms a planted bug (builds,
# stable tests pass, demo tells the trees apart) and runs the checks on it.
cd /repo || exit 9
git diff --quiet || { echo "/repo not clean"; exit 9; }
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
shift
trap 'git -C /repo checkout -q -- .' EXIT
bash $S/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
s=b.get('passed') or b.get('stable') or b
m=[t for t in s if t not in o['passed']] if isinstance(s,list) else o['failed']
print('tests: %d passed, missing %s'%(len(o['passed']),m))"
bash $S/demo.sh >/tmp/demo1.log 2>&1; d1=$?
echo "demo: clean $d0, planted $d1"
for p in ${*:-$P}; do
  (cd /verif && timeout 900 ./check.py $p 2>/dev/null | tail -1 | cut -c1-200)
done
