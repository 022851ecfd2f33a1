import sys, collections, time; sys.path.insert(0,'/verif/gen')
from core import *; from rnd import *
a,bb=int(sys.argv[1]),int(sys.argv[2])
exe=build()
progs={i:G(i).program() for i in range(a,bb)}
t=time.time()
res=run_pool(exe,[{"id":i,"src":p.source()} for i,p in progs.items()],"sw")
print("run",time.time()-t, collections.Counter((r["load"],r["end"]) for r in res.values()))
errs=collections.Counter(); ex={}
import re
jobs=[]
for i,r in res.items():
    if r["load"]!="ok":
        k=re.sub(r'`[^`]*`','_',"\n".join(r["msg"].split("\n")[2:4])); k=k.split(chr(10))[0]; errs[k]+=1; ex.setdefault(k,(i,r["msg"]))
        continue
    j=progs[i].table(); j.update(id=i,ev=r["ev"],end=r["end"],st=r.get("st",[0,0,0,0])); jobs.append(j)
for k,c in errs.most_common(14): print(c,k,ex[k][0])
if len(sys.argv)>3:
    t=time.time()
    v,st=validate(jobs,"sw"); print("tlc",time.time()-t,st)
    print(collections.Counter(x[0][0] for x in v.values()))
    for i,x in v.items():
        if x[0][0] not in("good","ood"): print(i,x[0][0],x[0][1][:300])
c=collections.Counter(); 
for i,r in res.items():
    if r["end"]=="err": c[re.sub(r'`[^`]*`','_',[l for l in r["msg"].split("\n") if l and not l.endswith("(main.dyon)")][0])[:60]]+=1
print(c.most_common(12))
print([(i,r["msg"][:300]) for i,r in res.items() if r["load"]!="ok"][:1])
