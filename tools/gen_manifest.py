#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table below."""
import json, os, sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
T="deterministic simulation: seeded schedules and fault sequences over the real code, oracle: "
CL={}
def c(id,tech,note,level="exploration"): CL[id]=(tech,note,level)
exec(open(root+"/tools/claims.py").read())
PURE="a pure function of its inputs: no concurrency, time, I/O or second party takes part, so a simulated schedule or fault cannot change its result; searching its input space would be plain property-based testing, another technique"
NA={}
exec(open(root+"/tools/not_applicable.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CL:
        t,n,l=CL[i]
        checks.append({"property":i,"quick_cmd":f"bash run.sh check {i} quick","thorough_cmd":f"bash run.sh check {i} thorough","evidence_file":f"evidence/{i}.json","technique":T+t,"level":l,"level_note":n})
    else: na.append({"property":i,"reason":NA[i]})
m={"version":1,"setup_cmd":"bash sim/build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every source of nondeterminism (threads, locks, condition variables, clock, entropy, streams, disk) is intercepted below the code, at the libc boundary or at a trait the code already takes (Read, Write, WitnessGenerator). replay: bash run.sh replay <file>."}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); print(len(checks),"claimed",len(na),"not applicable")
