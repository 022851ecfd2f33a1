"""Debug: which cases of a family are outside of the domain."""
import sys; sys.path.insert(0,'/verif/gen')
import core, fam
ctx=core.Ctx("T","quick",1)
c=getattr(fam,sys.argv[1])()
progs=fam.pack(c,1)
exe=ctx.exe()
srcs=[p.source() for p in progs]
res=core.run_pool(exe,[{"id":i,"src":s} for i,s in enumerate(srcs)],"ood")
jobs=[]
for i,p in enumerate(progs):
    r=res[i]
    if r["load"]!="ok": print("LOAD",srcs[i],r["msg"]); continue
    j=p.table(); j.update(id=i,ev=r["ev"],end=r["end"],st=r["st"]); jobs.append(j)
verd,st=core.validate_safe(jobs,"ood")
k=0
for j in jobs:
    v=verd[j["id"]][0]
    if v[0]!="good":
        k+=1
        if k<8: print(v, srcs[j["id"]], j["ev"][-3:])
print(k,"of",len(jobs))
