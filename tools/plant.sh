#!/bin/bash
# plant.sh ID [check]: confirm a planted bug in a scratch copy bound over /repo in a private mount namespace
id=$1; S=/verif/seeded/$id; W=/tmp/plant_$id
rm -rf "/tmp/plant_$id"; cp -a /repo $W
bash $S/demo.sh >/tmp/plant_$id.demo0 2>&1 || { (cd /repo; true); echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/plant_$id.demo0; }
git -C $W apply $S/patch.diff || { echo "$id: PATCH"; rm -rf "/tmp/plant_$id"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "mount --bind $W /repo; cd /repo; bash /opt/vp/test.sh /tmp/plant_$id.json >/tmp/plant_$id.log 2>&1; bash $S/demo.sh >/tmp/plant_$id.demo1 2>&1; echo demo rc=\$? >>/tmp/plant_$id.demo1
if [ -n \"$2\" ]; then cd /verif; cp -a /verif/evidence /tmp/ev_$id; python3-vt engine/run.py $prop >/tmp/plant_$id.chk 2>&1; echo check rc=\$? >>/tmp/plant_$id.chk; fi"
python3 - $id <<'P'
import json,sys
id=sys.argv[1]
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open(f'/tmp/plant_{id}.json'))
bad=sorted(b-set(r['passed']))
print(id,'stable tests failing:',bad or 'none', '|', open(f'/tmp/plant_{id}.demo1').read().strip().splitlines()[-1])
P
[ -n "$2" ] && grep -E "VIOLATION|check rc|ERROR" /tmp/plant_$id.chk | cut -c1-200
rm -rf "/tmp/plant_$id"
