#!/usr/bin/env python3
# writes the "fixed" list of known-findings.json from the fix commits of /repo (subject -> property)
import json,subprocess,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P={"keep the reservoir index inside":"C04","move elements along the chain":"C05","discard elements with exactly":"C05","store eight bits per byte in the Bloom":"C23","store eight bits per byte in the cuckoo":"C23","fill a new or cleared cuckoo":"C03",
"start a new LTC segment":"C06","define the LTC points":"C21","let LTC compile":"C22","same time unit":"C06","kappa penalty":"C20","several translation units include metrics":"C22","exponential of <cmath>":"C22","backpropagation reads the size":"C20","perceptron within its maximal":"C23",
"number of active MC-NN clusters":"C07","cluster being split must not be recycled":"C07","nearest cluster however far":"C07","split an MC-NN cluster around its centroid":"C07","MC-NN performance threshold":"C07","variance of an MC-NN":"C07"}
P.update({"every Hoeffding tree leaf its own":"C11","refuse a Hoeffding tree split":"C11","feature of the chosen limit":"C26","second limit when there is only one":"C20","box of a Hoeffding tree node empty":"C26","leaf without data were NaN":"C15","value equal to a limit on the side":"C16","copied Hoeffding tree":"C24"})
extra=os.path.join(H,"tools","fixed_extra.json")
if os.path.exists(extra): P.update(json.load(open(extra)))
p=os.path.join(H,"known-findings.json"); d=json.load(open(p)); out=[]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    c=[v for k,v in P.items() if k in s]
    if not c: print("no property for",l); continue
    out.append("fixed: property=%s %s %s"%(c[0],h,s[5:]))
d["fixed"]=out; f=open(p,"w"); f.write('{"findings":[\n '+",\n ".join(json.dumps(x) for x in d["findings"])+'\n],\n"fixed":[\n '+",\n ".join(json.dumps(x) for x in out)+'\n]}\n')
