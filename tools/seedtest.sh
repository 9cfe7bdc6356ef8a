#!/bin/bash
# seedtest.sh ID [tier]   try one planted bug in throw-away copies, /repo and /verif/build are not touched:
# demo on the clean build, apply, build, tests, demo again, the property's check.
id=$1; tier=${2:-quick}
S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo $T/repo; cp -a /verif $T/verif; cp -a $S $T/seed
[ -n "$CHECK" ] && prop=$CHECK
unshare -Urm bash -c "
mount --bind $T/repo /repo && mount --bind $T/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh > $T/b0.log 2>&1 || { echo BUILD0 FAILED; tail $T/b0.log; }
timeout 300 bash $T/seed/demo.sh > $T/d0.log 2>&1; echo demo clean: \$?
git apply $T/seed/patch.diff || { echo APPLY FAILED; exit 1; }
bash /opt/vp/build.sh > $T/b1.log 2>&1 || { echo BUILD FAILED; tail $T/b1.log; }
bash /opt/vp/test.sh $T/t.json > $T/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$T/t.json'))
st=b.get('stable') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.get('passed',[]))
print('tests stable', len(st), 'broken:', sorted(st-set(t['passed']))[:5])
P
timeout 300 bash $T/seed/demo.sh > $T/d1.log 2>&1; echo demo patched: \$?; tail -2 $T/d1.log
cd /verif; VERIF_SEED=\${SEED:-1} PBT_SUMMARY=1 timeout 900 python3 tools/run.py $prop $tier > $T/c.log 2>&1; echo check $prop exit \$?; grep -E 'VIOLATION|quick seed|thorough seed' $T/c.log | head -8
"
find "$T" -delete
