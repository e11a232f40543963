#!/usr/bin/env python3
# mk.py ID PROP NEEDS BREAKS  file<<<edits : edits given as python list in file /tmp/sd/ID.py: EDITS=[(path,old,new)], NEEDS, BREAKS, PROP, DEMO
import sys,subprocess,json,os,runpy
for f in sys.argv[1:]:
    m=runpy.run_path(f); ID=m['ID']; d=f'/verif/seeded/{ID}'; os.makedirs(d,exist_ok=True)
    assert subprocess.call('git -C /repo diff --quiet',shell=True)==0
    try:
        for p,o,n in m['EDITS']:
            s=open('/repo/'+p).read(); assert s.count(o)==1,(p,o,s.count(o)); open('/repo/'+p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(subprocess.check_output('git -C /repo diff',shell=True,text=True))
    finally: subprocess.call('git -C /repo checkout -- .',shell=True)
    json.dump({'property':m['PROP'],'needs':m['NEEDS'],'what_it_breaks':m['BREAKS']},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cpp','w').write(m['DEMO'])
