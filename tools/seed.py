#!/usr/bin/env python3
"""seed.py [id...]: (re)creates /verif/seeded/<id> from tools/seeds/*.py, validates each planted bug
(applies, builds, the stable tests pass, demo 0 without / nonzero with) and reports which check catches it.
  SEED_NOTEST=1 skips the test suite, SEED_CHECKS=C01,C20 runs further checks, SEED_NOCHECK=1 runs none.
The patch is applied to /repo only while it is validated and undone straight afterwards."""
import sys,os,subprocess,json,glob,shutil,tempfile
V='/verif'; S={}
def seed(id,prop,edits,demo,needs,breaks,std='c++11',flags=''):
    S[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,std=std,flags=flags)
for f in sorted(glob.glob(V+'/tools/seeds/*.py')): exec(open(f).read())
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
want=sys.argv[1:] or sorted(S)
assert not sh('git -C /repo status --porcelain').stdout.strip(),'dirty /repo'
for i in want:
    s=S[i]; d=V+'/seeded/'+i; os.makedirs(d,exist_ok=True)
    open(d+'/demo.cpp','w').write(s['demo'].lstrip())
    open(d+'/demo.sh','w').write('''#!/bin/sh
# run with the repository as working directory: exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
g++ -std=%s -O1 -w %s -I src "$here/demo.cpp" -o "$t/demo" || { rmdir "$t"; exit 3; }
timeout 100 "$t/demo"; r=$?
rm -f "$t/demo" "$t/second.o"; rmdir "$t"
exit $r
'''%(s['std'],s['flags'])); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    msgs=[]; base=sh('sh %s/demo.sh'%d,cwd='/repo')
    if base.returncode: msgs.append('DEMO FAILS ON CLEAN TREE %d %s'%(base.returncode,base.stdout[-600:]))
    try:
        for e in s['edits']:
            f,old,new=e[:3]; p='/repo/src/'+f; t=open(p).read(); k=e[3] if len(e)>3 else 0
            assert old in t,(i,old); x=-1
            for _ in range(k+1): x=t.index(old,x+1)
            open(p,'w').write(t[:x]+new+t[x+len(old):])
        diff=sh('git -C /repo diff').stdout; open(d+'/patch.diff','w').write(diff)
        b=sh('git -C /repo diff -U0').stdout
        # removed lines must be lines of the base commit
        rem=[l[1:] for l in b.splitlines() if l.startswith('-') and not l.startswith('---')]
        basef={f:sh('git -C /repo show 4052618:src/%s'%f).stdout.splitlines() for f in {e[0] for e in s['edits']}}
        for l in rem:
            if l.strip() and not any(l in v for v in basef.values()): msgs.append('changes a line that is not original: '+l.strip())
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: msgs.append('DOES NOT BUILD '+r.stdout[-500:])
        elif not os.environ.get('SEED_NOTEST'):
            r=sh('bash /opt/vp/test.sh /tmp/seed.json'); 
            j=json.load(open('/tmp/seed.json')); 
            if len(j['passed'])<46: msgs.append('TESTS CATCH IT: %s'%j['failed'][:5])
        r=sh('sh %s/demo.sh'%d,cwd='/repo')
        if r.returncode==0: msgs.append('DEMO DOES NOT FAIL')
        if r.returncode==3: msgs.append('DEMO DOES NOT COMPILE')
        if not os.environ.get('SEED_NOCHECK'):
            for c in [s['prop']]+[x for x in os.environ.get('SEED_CHECKS','').split(',') if x]:
                r=sh('python3 %s/check.py %s'%(V,c)); o=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
                msgs.append('%s %s: %s'%(c,{0:'MISSES IT',1:'catches it',2:'BROKEN'}.get(r.returncode,r.returncode),(o or [''])[0][:160]))
    finally:
        sh('git -C /repo checkout -- .')
    print(i,'|',' | '.join(msgs),flush=True)
sh('bash /opt/vp/build.sh')
