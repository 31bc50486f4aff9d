#!/usr/bin/env python3
# debugging aid: runscn.py FILE [pattern] : runs the scenarios of a file and prints the alarms
import sys,subprocess,json,re,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''; bud=sys.argv[3] if len(sys.argv)>3 else '100'
bc='/tmp/b/'+f+'.bc'; os.makedirs('/tmp/b',exist_ok=True)
r=subprocess.run(['sh',H+'/engine/mkir.sh',H+'/scenarios/'+f,bc]+sys.argv[4:]); 
if r.returncode: sys.exit(1)
from concurrent.futures import ThreadPoolExecutor
names=[n for n in re.findall(r'^SCN\s+(\w+)\(',open(H+'/scenarios/'+f).read(),re.M) if re.search(pat,n)]
def one(n):
    r=subprocess.run([H+'/build/vpai',bc,n,'--budget',bud,'--debug'],capture_output=True,text=True)
    return n,r
with ThreadPoolExecutor(8) as ex:
    for n,r in ex.map(one,names):
        try: d=json.loads(r.stdout)
        except Exception: print(n,'CRASH',r.stderr[-1500:],r.returncode); continue
        c=d['counts']; print('==',n,'INCOMPLETE '+d['incomplete'] if d['incomplete'] else '', '%.1fs'%d['seconds'],'steps',c['instructions interpreted'],'nodes',c.get('merge nodes'),'joins',c.get('joins'),'asserts',c.get('assertions checked'),d['reached'])
        if r.stderr: print(r.stderr[-1500:])
        for a in d['alarms']:
            print('  *',a['kind'],a['msg'],a['file'].split('/')[-1],a['line'],a['function'][:90]); 
            for s in a['stack'][:5]: print('       ',s[-140:])
            if os.environ.get('TR'): print('       trace',' '.join(t.split('/')[-1] for t in a['trace'][-300:]))
