#!/bin/bash
# Confirms a planted bug in a scratch copy: tools/seedtest.sh ID [check...]
id=$1; shift
S=/verif/seeded/$id
T=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo "$T/repo"
cp -a "$S" "$T/demo"; 
unshare -m bash -c "
mount --bind $T/repo /repo
cd /repo
bash /opt/vp/build.sh >$T/b0 2>&1 || { echo BUILD0 FAILED; tail -5 $T/b0; exit 1; }
bash $T/demo/demo.sh >$T/d0 2>&1; echo demo unchanged: \$?
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >$T/b1 2>&1 || { echo BUILD FAILED; tail -20 $T/b1; exit 1; }
bash $T/demo/demo.sh >$T/d1 2>&1; echo demo changed: \$?; tail -3 $T/d1
bash /opt/vp/test.sh $T/out.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$T/out.json'))
bp=set(b['passed'] if 'passed' in b else b['stable'] ) if isinstance(b,dict) else set(b)
print('tests lost:', sorted(bp-set(o['passed'])))
P
for c in $*; do cd /verif; MC_NOEVIDENCE=1 timeout 900 python3 run.py \$c --quick >$T/c 2>&1; echo check \$c: \$?; grep -h 'scenario\|VIOLATION' $T/c | head -3; done
"
rm -rf "$T"
