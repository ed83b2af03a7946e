#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks and properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
D="seeded random workloads on the real code, "
T={}
def c(pid,tech,note): T[pid]=(tech,note)
exec(open('/verif/tools/claims.py').read())
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} --thorough","technique":t,"level":"exploration","level_note":n})
    else: na.append({"property":i,"reason":NOTYET.get(i,"no check built yet (work in progress); runtime monitoring applies in principle")})
m={"version":1,"setup_cmd":"./tools/setup.sh",
 "hooks":HOOKS,
 "checks":checks,"not_applicable":na,
 "notes":"Runtime monitoring: harness binaries in te/ (trading-engine) and ql/ (quantlib) run the real crates under seeded workloads with online reference-model monitors; sanitizer/interpreter builds where memory or concurrency is the property. known-findings.jsonl lists repaired and recorded defects."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
