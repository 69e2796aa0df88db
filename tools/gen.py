import sys,time,collections; sys.path.insert(0,'/verif')
from dv.cparse import TU
from dv.symx import *
from dv import solve
import importlib
mod=importlib.import_module('specs.'+sys.argv[1])
f=[f for f in mod.FNS if f.name==sys.argv[2]][int(sys.argv[3]) if len(sys.argv)>3 else 0]
t=time.time(); ex=Exec(TU(f.file,**getattr(f,'tuopts',{})),{},f); ex.verify()
print('gen %.1f obls %d paths %s'%(time.time()-t,len(ex.obls),ex.npaths))
cnt=collections.Counter((o.kind,o.name.split(':')[0]) for o in ex.obls)
for k,v in cnt.most_common(40): print(v,k)
