import sys; sys.path.insert(0,'/verif/gen')
import core, fam
for name in sys.argv[1:]:
    ctx=core.Ctx("T","quick",1)
    c=getattr(fam,name)()
    per={"ops":1}.get(name,12)
    ctx.programs(name, fam.pack(c,per))
    print(name,len(c),{k:v for k,v in ctx.cov.items() if k!="samples"},len(ctx.violations))
    if ctx.violations:
        seen=set()
        for v in ctx.violations[:40]:
            t=open(v).read(); h=t[:250]
            if t[:120] in seen: continue
            seen.add(t[:120])
            if len(seen)<6: print(v,h,"\n----")
