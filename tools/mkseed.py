"""mkseed.py specfile : spec defines SEEDS=[dict(id,prop,file,edits=[(old,new)],demo=C text,needs,breaks)]"""
import sys,os,subprocess,json,shutil,tempfile
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
spec={}; exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# cwd: the repository. exit 0: behaves as specified; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
sed -e 's/@R3D_MAX_VERTS@/512/' -e 's/@[A-Za-z0-9_]*@//g' config/r3d-config.h.in > "$T/r3d-config.h"
gcc -O1 -g -w -std=gnu11 -DNDEBUG %s-I"$T" -Isrc "$D/demo.c" src/*.c -lm -o "$T/demo" || exit 99
( ulimit -s unlimited 2>/dev/null; timeout 120 "$T/demo" )
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()=='' 
    files=s['file'] if isinstance(s['file'],list) else [s['file']]
    ok=True
    for e in s['edits']:
        f,old,new = e if len(e)==3 else (files[0],)+tuple(e)
        t=open('/repo/'+f).read()
        if t.count(old)!=1: print(s['id'],'EDIT COUNT',t.count(old),repr(old[:60])); ok=False; break
        open('/repo/'+f,'w').write(t.replace(old,new))
    if not ok: sh('git -C /repo checkout -- .'); continue
    diff=sh('git -C /repo diff').stdout; open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%(s.get('flags','')+' ' if s.get('flags') else '')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.c','w').write(s['demo'])
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh('bash /opt/vp/build.sh'); 
    r1=sh('bash %s/demo.sh'%d,cwd='/repo')
    tst='skip'
    if not os.environ.get('NOTEST'):
        sh('bash /opt/vp/test.sh /tmp/seedwork/o.json'); o=json.load(open('/tmp/seedwork/o.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        tst=[x for x in base if x not in o['passed']]
    ck='skip'
    if not os.environ.get('NOCHECK'):
        for p in [s['prop']]:
            c=sh('python3-vt checks/run.py '+p,cwd='/verif'); ck=(c.returncode,[l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'KNOWN' in l or 'oblig' in l])
    sh('git -C /repo checkout -- .'); 
    r0=sh('bash %s/demo.sh'%d,cwd='/repo')
    print(s['id'],'build',b.returncode,'demo patched',r1.returncode,'clean',r0.returncode,(r0.stdout+r0.stderr)[-200:] if r0.returncode else '', 'tests failing',tst,'check',ck,flush=True)
sh('bash /opt/vp/build.sh')
