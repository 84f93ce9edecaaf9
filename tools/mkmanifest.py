#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl, checks.json and tools/na.json.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
checks=json.load(open(root+'/checks.json'))
na=json.load(open(root+'/tools/na.json'))
C=[];N=[]
for p in props:
    i=p['id']
    if i in checks:
        c=checks[i]
        C.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,
         "evidence_file":"evidence/%s.json"%i,
         "technique":"symbolic execution of the real Go code (go/ssa) with SMT-decided paths and assertions",
         "level":"model_checking",
         "level_note":c.get("note") or ("Decides the property for every value of the symbolic inputs within the bounds listed per harness in the evidence. Outside: "+c.get("outside","inputs larger than the bounds")+". Trusts the go/ssa translation, the engine's models of runtime and reflect (sampled paths are re-run natively every time) and the SMT solver; violations are reported only after native reproduction.")})
    else:
        N.append({"property":i,"reason":na.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":C,"not_applicable":N,
 "notes":"No hooks in /repo: harnesses are overlaid at load and build time. See DESIGN.md."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1);open(root+'/MANIFEST.json','a').write('\n')
print(len(C),'checks',len(N),'not applicable')
