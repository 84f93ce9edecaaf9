#!/usr/bin/env python3
# Helper to (re)write one property's entry of checks.json from a short spec on stdin:
#   ID | outside
#   area.Func | quick ladder | thorough ladder | budget | bound
# ladders: "n=2;n=3,mode=0"
import sys,json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C=json.load(open(root+'/checks.json'))
def lad(s):
    out=[]
    for e in s.split(';'):
        e=e.strip(); d={}
        if e and e!='-':
            for kv in e.split(','):
                k,v=kv.split('='); d[k.strip()]=int(v)
        out.append(d)
    return out
cur=None
for l in sys.stdin:
    l=l.strip()
    if not l: continue
    f=[x.strip() for x in l.split('|')]
    if len(f)==2:
        cur={"outside":f[1],"harnesses":[]}; C[f[0]]=cur
    else:
        a,fn=f[0].split('.')
        h={"area":a,"func":fn,"quick":lad(f[1])}
        if f[2]: h["thorough"]=lad(f[2])
        h["budget"]=int(f[3]); h["bound"]=f[4]
        for kv in f[5:]:
            k,v=kv.split('='); h[k]=int(v)
        cur["harnesses"].append(h)
out="{\n"+",\n".join(' %s: {%s "harnesses": [\n%s\n ]}'%(json.dumps(k),"".join('%s:%s, '%(json.dumps(x),json.dumps(y)) for x,y in v.items() if x!="harnesses"),",\n".join("  "+json.dumps(h) for h in v["harnesses"])) for k,v in sorted(C.items()))+"\n}\n"
open(root+'/checks.json','w').write(out)
