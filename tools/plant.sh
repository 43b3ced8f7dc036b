#!/bin/bash
# plant.sh ID PROPERTY: takes the uncommitted change in /repo as planted bug ID (seeded/ID/demo.cpp must exist), confirms it and runs the check
id=$1; prop=$2; d=/verif/seeded/$id
[ -e $d/demo.cpp ] || { echo "no demo"; exit 1; }
cp /verif/tools/demo/demo.sh /verif/tools/demo/demo_common.h $d/
chmod +x $d/demo.sh
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $d/patch.diff; fi
git -C /repo checkout -q -- .
T=$(mktemp -d); cp $d/demo.sh $d/demo.cpp $d/demo_common.h $T/
bash /opt/vp/build.sh > /tmp/plant.log 2>&1 || { echo "clean build failed"; exit 1; }
(cd /repo && bash $T/demo.sh) > /tmp/plant.clean 2>&1; c=$?
[ $c = 0 ] || { echo "DEMO FAILS ON CLEAN TREE ($c)"; tail -5 /tmp/plant.clean; rm -rf $T; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1 || { echo "build failed with patch"; tail -5 /tmp/plant.log; git -C /repo checkout -q -- .; exit 1; }
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
stable=b['stable']
stable=[x if isinstance(x,str) else x.get('name') for x in stable]
miss=[x for x in stable if x not in o['passed']]
print('TESTS FAIL' if miss else 'tests pass', miss[:5])
P
(cd /repo && bash $T/demo.sh) > /tmp/plant.bug 2>&1; c=$?
[ $c = 0 ] && echo "DEMO PASSES WITH PATCH" || { echo "demo fails with patch ($c): $(tail -1 /tmp/plant.bug)"; }
cd /verif; timeout 900 ./check.sh $prop > /tmp/plant.check 2>&1; c=$?
echo "check $prop: exit $c"; grep -m3 -E "^key|VIOLATION" /tmp/plant.check
git -C /repo checkout -q -- .
rm -rf $T
bash /opt/vp/build.sh > /dev/null 2>&1
