#!/bin/bash
# try.sh ID [tests|check..]: applies a planted bug, builds, runs the tests and the demonstration, then the named checks; undoes it
ID=$1; shift; S=/verif/seeded/$ID
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
cp /verif/tools/seedlib/demo.h $S/ 2>/dev/null; [ -f $S/demo.sh ] || cp /verif/tools/seedlib/demo.sh $S/
trap 'git -C /repo checkout -- .' EXIT
if [ "$1" != "-q" ]; then
(cd /repo && bash /opt/vp/build.sh >/tmp/sd/b.log 2>&1 && bash $S/demo.sh) >/tmp/sd/demo0.log 2>&1; echo "$ID clean demo: $?"
git -C /repo apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/sd/t.json >/tmp/sd/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sd/t.json'))
base=b if isinstance(b,list) else b.get('passed',b.get('tests',b))
print("broken tests:", sorted(set(base["stable"])-set(t['passed']))[:6])
P
(cd /repo && bash $S/demo.sh) >/tmp/sd/demo1.log 2>&1; echo "$ID patched demo: $?"; tail -2 /tmp/sd/demo1.log
else shift; git -C /repo apply $S/patch.diff; fi
for c in "$@"; do (cd /verif && python3 vp.py check $c --tier quick 2>&1 | grep -E 'VIOLATION|KNOWN|INCONC|error' | cut -c1-300; echo "$ID $c rc=${PIPESTATUS[0]}"); done
