#!/usr/bin/env python3
import sys,os,json
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
import catalog
NA={
"C40":"a statement about probability distributions; no sound static argument in reach decides sampling frequencies",
"C41":"a numerical error bound over real-valued line geometry of unbounded histories; interval analysis cannot bound it tightly enough to decide it",
"C42":"accuracy and convergence quantify over data distributions; only experiments can address them",
"C43":"a statistical rate over random hash functions; not a property of the code's paths",
}
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
ch=[]; na=[]
for p in props:
    i=p['id']
    if i in catalog.CHECKS:
        c=catalog.CHECKS[i]
        ch.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i+" thorough","evidence_file":"evidence/%s.json"%i,"technique":c['technique'],"level":"other","level_note":c.get('note') or (c['explain']+". Sound for the instantiated template shapes and the stated argument ranges, unbounded in history length; trusts clang's IR and the analyser.")})
    else: na.append({"property":i,"reason":NA.get(i,"not built yet")})
m={"version":1,"setup_cmd":"sh engine/build.sh","checks":ch,"not_applicable":na}
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
print(len(ch),'checks',len(na),'not applicable')
