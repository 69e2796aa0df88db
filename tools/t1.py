import sys,time; sys.path.insert(0,'/verif')
from dv.cparse import TU
from dv.symx import *
from dv import solve
import importlib
mod=importlib.import_module('specs.'+sys.argv[1]); 
only=sys.argv[2:] 
tus={}
for f in mod.FNS:
    if only and f.name not in only and getattr(f,'label','') not in only: continue
    t=time.time()
    o=getattr(f,'tuopts',{}); tu=tus.setdefault((f.file,str(o)),TU(f.file,**o))
    ex=Exec(tu,{},f)
    ex.verify()
    t1=time.time()
    r=solve.discharge(ex.obls,float(__import__('os').environ.get('B','20')))
    bad=[(o,x) for o,x in zip(ex.obls,r) if x[0]!='proved']
    cv=solve.covers(ex.covers)
    print(f.name,getattr(f,'label',''),'obls',len(ex.obls),'paths',ex.npaths,'bad',len(bad),'gen %.1f solve %.1f'%(t1-t,time.time()-t1),'contradictory',cv, flush=True)
    for o,x in sorted(zip(ex.obls,r),key=lambda q:-q[1][3])[:int(__import__('os').environ.get('NS','2'))]:
        if x[3]>1: print('   slow %.1f %s %s %s'%(x[3],x[1],o.kind,o.name))
    for o,x in bad[:int(__import__('os').environ.get('NB','12'))]: print('   BAD',o.kind,o.name,'line',o.line,x[0],x[1],x[2][:150].replace('\n',' ; '),'%.1f'%x[3])
