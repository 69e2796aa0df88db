import sys; sys.path.insert(0,'/verif')
from dv.cparse import TU
from dv.symx import *
from dv import solve, ring
import importlib
mod=importlib.import_module('specs.'+sys.argv[1]); f=[f for f in mod.FNS if f.name==sys.argv[2]][0]
ex=Exec(TU(f.file),{},f); ex.verify()
o=[o for o in ex.obls if sys.argv[3] in o.name][int(sys.argv[4])]
orig=ring.prove
def pr(h,g,lin=False):
    r=orig(h,g,lin)
    if not r:
        N=ring.Norm(); ring.find_rules(h,N); a=N.fr(g.arg(0));b=N.fr(g.arg(1)); d=N.reduce(ring.padd(ring.pmul(a[0],b[1]),ring.pmul(b[0],a[1]),-1)); print('RING FAIL rules',{str(N.terms[k]) for k in N.rules},'diff',len(d),'dens',[(str(x)[:60],ring.entails(h,x!=0)) for x in N.dens])
    return r
ring.prove=pr
oe=ring.entails
solve.STAGES_QF=[];solve.STAGES_Q=[]
print(solve.attempt(o,10)[:2])
