#!/usr/bin/env python3
# records which vp_reach tags each scenario reaches on the current tree (run on the unchanged tree only)
import sys,os,re,json,subprocess
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); P=H+'/scenarios/reach.json'
R=json.load(open(P)) if os.path.exists(P) else {}
from concurrent.futures import ThreadPoolExecutor
fs=sys.argv[1:] or sorted(f for f in os.listdir(H+'/scenarios') if f.endswith('.cpp'))
jobs=[]
for f in fs:
    bc='/tmp/b/reach_'+f+'.bc'; os.makedirs('/tmp/b',exist_ok=True); subprocess.run(['sh',H+'/engine/mkir.sh',H+'/scenarios/'+f,bc],check=True)
    jobs+=[(bc,n) for n in re.findall(r'^SCN\s+(\w+)\s*\(',open(H+'/scenarios/'+f).read(),re.M)]
def one(j):
    r=subprocess.run([H+'/build/vpai',j[0],j[1],'--budget','900'],capture_output=True,text=True)
    try: return j[1],json.loads(r.stdout)
    except Exception: return j[1],{'reached':[],'incomplete':'crash','alarms':[]}
with ThreadPoolExecutor(8) as ex:
    for n,d in ex.map(one,jobs):
        R[n]=sorted(d['reached'])
        if d['incomplete'] or d['alarms']: print(n,d['incomplete'],[a['msg'] for a in d['alarms']])
names=set(); [names.update(re.findall(r'^SCN\s+(\w+)\s*\(',open(H+'/scenarios/'+f).read(),re.M)) for f in os.listdir(H+'/scenarios') if f.endswith('.cpp')]
json.dump({k:v for k,v in sorted(R.items()) if k in names},open(P,'w'),indent=0)
