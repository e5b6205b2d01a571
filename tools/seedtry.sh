#!/bin/bash
# seedtry.sh ID: apply a planted bug, run the existing tests, its demo and its property's check, undo.
id=$1; d=/verif/seeded/$id
[ -f "$d/patch.diff" ] || { echo "no $id"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$d/demo.sh" >/tmp/seed.demo0 2>&1; a=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id: BUILD FAILS"
[ -z "$NOTEST" ] && bash /opt/vp/test.sh /tmp/seed.tests.json >/tmp/seed.tests 2>&1
bash "$d/demo.sh" >/tmp/seed.demo1 2>&1; b=$?
(cd /verif && VERIF_SEED=${SEED:-5} VERIF_TIER=quick timeout 900 ./check.sh $prop >/tmp/seed.check 2>&1); c=$?
git -C /repo checkout -- .
[ -z "$NOTEST" ] && python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.tests.json'))
m=set(b['stable'])-set(t['passed'])
print("baseline tests lost:", sorted(m)[:5])
P
echo "$id $prop demo clean=$a patched=$b check=$c: $(grep VIOLATION /tmp/seed.check)"
