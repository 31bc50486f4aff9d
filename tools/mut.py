#!/usr/bin/env python3
# mut.py FILE 'old' 'new' CHECK... : tries a textual change to a scratch copy of /repo against some checks (development aid)
import sys,subprocess,shutil,os,tempfile
f,old,new=sys.argv[1:4]; d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); shutil.copytree('/repo/src',d+'/src')
p=d+'/src/'+f; s=open(p).read(); n=s.count(old); assert n>=1,'pattern not found'
k=int(os.environ.get('NTH','0')); i=-1
for _ in range(k+1): i=s.index(old,i+1)
s=s[:i]+new+s[i+len(old):]; open(p,'w').write(s)
for c in sys.argv[4:]:
    r=subprocess.run(['python3','/verif/check.py',c],env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True); o=r.stdout.strip().splitlines()
    print(c,'exit',r.returncode,'|',' / '.join(x for x in o[:6] if not x.startswith('KNOWN'))[:500],r.stderr[-300:])
shutil.rmtree(d)
