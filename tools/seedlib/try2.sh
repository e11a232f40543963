#!/bin/bash
# try2.sh spec.py [checks]: in the scratch tree /tmp/sd/r
S=$1; shift
cd /tmp/sd/r && git checkout -q -- . 
ID=$(python3 - $S <<'P'
import sys,runpy,os,subprocess,json
m=runpy.run_path(sys.argv[1]); d='/tmp/sd/out/'+m['ID']; os.makedirs(d,exist_ok=True)
R='/tmp/sd/r/'
for p,o,n in m['EDITS']:
    s=open(R+p).read(); assert s.count(o)==1,(p,o,s.count(o)); open(R+p,'w').write(s.replace(o,n))
open(d+'/patch.diff','w').write(subprocess.check_output('git -C /tmp/sd/r diff',shell=True,text=True))
subprocess.call('git -C /tmp/sd/r checkout -q -- .',shell=True)
json.dump({'property':m['PROP'],'needs':m['NEEDS'],'what_it_breaks':m['BREAKS']},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.cpp','w').write(m['DEMO'])
sh=open('/verif/tools/seedlib/demo.sh').read()
if 'LIBS' in m: sh=sh.replace('_build/lib/librotor.a -lboost_date_time -lpthread',m['LIBS'])
else: open(d+'/demo.h','w').write(open('/verif/tools/seedlib/demo.h').read())
open(d+'/demo.sh','w').write(sh)
print(m['ID'])
P
) || exit 1
D=/tmp/sd/out/$ID
ninja -C _build -j4 >/tmp/sd/nb.log 2>&1 || echo "build fails"
bash $D/demo.sh > /tmp/sd/demo0.log 2>&1; echo "$ID clean demo $?"; tail -1 /tmp/sd/demo0.log
git apply $D/patch.diff || exit 1
ninja -C _build -j4 >/tmp/sd/nb.log 2>&1 || echo "build fails"
ctest --test-dir _build -j4 --timeout 60 2>&1 | grep -E 'tests passed|Failed|\*\*\*'
bash $D/demo.sh > /tmp/sd/demo1.log 2>&1; echo "$ID patched demo $?"; tail -1 /tmp/sd/demo1.log
for c in "$@"; do (cd /verif && VP_REPO=/tmp/sd/r python3 vp.py check $c 2>&1 | grep -E 'VIOLATION|INCONC|error' | cut -c1-250; echo "$ID $c rc=${PIPESTATUS[0]}"); done
git checkout -q -- .
