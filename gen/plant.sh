#!/bin/bash
# plant.sh ID [nocheck]: confirms a planted bug (demo passes without, fails with it; stable tests pass) and runs its property's check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
cd /repo
if [ "$2" != nodemo ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build fails"; exit 2; }
bash $d/demo.sh >/tmp/demo0.log 2>&1 || { echo "$id demo FAILS on clean tree"; tail -5 /tmp/demo0.log; exit 2; }
fi
git apply $d/patch.diff || { echo "$id does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != nodemo ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id does not build"; grep -m5 error -A5 /tmp/b.log; exit 2; }
bash $d/demo.sh >/tmp/demo1.log 2>&1 && { echo "$id demo does NOT fail with the patch"; exit 2; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<P || exit 2
import json
base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
b=base.get('stable') or base.get('passed') or base
b=[x if isinstance(x,str) else x.get('name') for x in (b if isinstance(b,list) else list(b))]
p=set(t.get('passed') or [k for k,v in t.items() if v=='passed'])
miss=[x for x in b if x not in p]
print("$id tests missing:",miss[:5],len(b))
import sys; sys.exit(1 if miss else 0)
P
fi
cd /verif && timeout 900 python3 check.py $prop quick > /tmp/c.log 2>&1; rc=$?
echo "$id property=$prop check rc=$rc"; tail -2 /tmp/c.log
