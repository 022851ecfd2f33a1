"""Which explorations decide which property."""
import re, random
import rnd, fam, life, typ, mods, host, data, conv, expr, where, clo, metarules, listing
from rnd import gen

def rand(ctx, fam_, count, base, **prof):
    seeds = [ctx.seed * 1000003 + base * 100019 + i for i in range(count)]
    ctx.programs(fam_, [gen(s, **prof) for s in seeds])

def q(ctx, a, b):
    return a if ctx.quick else b

def c01(ctx):
    r = random.Random(ctx.seed)
    ctx.programs("sequences of 1", fam.memory(1))
    ctx.programs("sequences of 2", fam.memory(2))
    if not ctx.quick:
        ctx.programs("sequences of 3", fam.memory(3, 30000, r))
    rand(ctx, "random", q(ctx, 800, 20000), 1, refs=3.0, mut=2.0, calls=1.5, links=0.1, acc=0.2,
         types=["n", "n", ("a", "n"), ("a", "n"), ("a", ("a", "n")), ("o", (("a", "n"), ("b", ("a", "n"))))])

def c04(ctx):
    ctx.programs("nested loops", fam.pack(fam.ctl()))
    ctx.programs("three loops", fam.pack(fam.ctl3()))
    ctx.programs("if chains", fam.pack(fam.ifs()))
    ctx.programs("returns", fam.pack(fam.returns()))
    rand(ctx, "random", q(ctx, 500, 20000), 4, loops=2.5, ifs=2.0, labels=0.8, acc=1.5)

def c05(ctx):
    for nm in ("accs", "packed", "inferred", "vecloops"):
        ctx.programs(nm, fam.pack(getattr(fam, nm)()))
    ctx.loads("ranges taken from the body", fam.infers([ctx.seed * 1000003 + 500009 + i for i in range(q(ctx, 2500, 60000))]))
    rand(ctx, "random", q(ctx, 400, 15000), 5, loops=2.0, acc=4.0, labels=0.8, refs=0.5, sec=0.5)

def c06(ctx):
    ctx.programs("secrets", fam.pack(fam.secrets()))
    ctx.programs("not a secret", fam.pack(fam.secret_why_rejects()))
    rand(ctx, "random", q(ctx, 400, 15000), 6, sec=1.0, acc=2.0, refs=0.5)

def c07(ctx):
    ctx.programs("errors", fam.pack(fam.errors()))
    ctx.programs("after an error", fam.pack(fam.err_state()))
    rand(ctx, "random", q(ctx, 500, 15000), 7, q=3.0, tries=2.0, errs=0.2, opt=2.0,
         types=["n", "n", "b", "s", ("opt", "n"), ("res", "n"), ("res", "s"), ("opt", ("a", "n")), ("a", "n")])

def c08(ctx):
    ctx.programs("operators", fam.pack(fam.ops(), 1))
    ctx.programs("order", fam.pack(fam.order()))
    r = random.Random(ctx.seed)
    ctx.runs("operators next to each other", expr.flat(r), "DyonExprTrace")
    ctx.runs("texts of expressions", expr.random_(q(ctx, 4000, 60000), r), "DyonExprTrace")
    rand(ctx, "random", q(ctx, 300, 15000), 8, edepth=3, pr=0.4, loops=0.4, refs=0.5)

def c09(ctx):
    ctx.programs("library", fam.pack(fam.stdlib()))
    ctx.programs("values that refer to variables", fam.pack(fam.lib_refs(), 1), must_load=False)
    ctx.programs("numbers", fam.pack(fam.numbers()))
    ctx.programs("laws", fam.pack(fam.laws()))
    rand(ctx, "random", q(ctx, 300, 15000), 9, mut=3.0, loops=0.5,
         types=["n", "s", ("a", "n"), ("a", "s"), ("a", ("a", "n")), ("o", (("a", "n"), ("b", ("a", "n"))))])

def c10(ctx):
    ctx.programs("links", fam.pack(fam.links()))
    r = random.Random(ctx.seed)
    ctx.programs("link sequences", fam.pack(fam.link_ops(2), 40) + fam.pack(fam.link_ops(q(ctx, 3, 4), q(ctx, None, 20000), r), 40))
    rand(ctx, "random", q(ctx, 300, 15000), 10, links=4.0, types=["l", "l", "n", "s", ("a", "l")])

def c11(ctx):
    ctx.programs("closures", fam.pack(fam.closures()))
    rand(ctx, "random", q(ctx, 500, 15000), 11, clos=3.0, refs=0.7)

def c12(ctx):
    ctx.programs("current objects", fam.pack(fam.currents()))
    rand(ctx, "random", q(ctx, 500, 15000), 12, cur=0.9, calls=3.0, fns=4)

def c14(ctx):
    ctx.programs("threads", fam.pack(fam.threads(), 4))
    rand(ctx, "random", q(ctx, 400, 10000), 14, threads=3, fns=4, stmts=4, errs=0.1, calls=2.0)
    rand(ctx, "random with messages", q(ctx, 150, 5000), 140, threads=2, ins=1, fns=3, stmts=3, calls=3.0)

def c15(ctx):
    ctx.programs("messages", fam.pack(fam.messages(), 4))
    rand(ctx, "random", q(ctx, 500, 10000), 15, ins=1, fns=4, stmts=4, calls=6.0)
    rand(ctx, "random with threads", q(ctx, 200, 5000), 150, threads=2, ins=1, fns=3, stmts=3, calls=3.0)

def c21(ctx):
    ctx.programs("lazy invariants", fam.pack(fam.lazies()))

def c23(ctx):
    ctx.programs("vectors", fam.pack(fam.vectors()))
    ctx.programs("frames", fam.pack(fam.frames()))
    ctx.programs("laws", fam.pack(fam.vlaws()))
    ctx.programs("vector loops", fam.pack(fam.vecloops()))
    rand(ctx, "random", q(ctx, 200, 10000), 23, vec=1.0, types=["v", "v", "m", "n"], errs=0.0)

def c24(ctx):
    ctx.programs("calls", fam.pack(fam.calls()))
    ctx.programs("returns", fam.pack(fam.returns()))
    rand(ctx, "random", q(ctx, 500, 15000), 24, fns=6, calls=4.0, mut=1.5)

def some(ctx, cases, k):
    return life.make(cases if not ctx.quick or len(cases) <= k else random.Random(ctx.seed + 7).sample(cases, k))

def wild(ctx, fam_, count, base, **prof):
    """Programs written without care for lifetimes and mutability."""
    p = dict(wild=0.06, refs=3.0, mut=2.0, calls=2.0, stmts=4, links=0.1, acc=0.2,
             types=["n", "n", ("a", "n"), ("a", "n"), ("a", ("a", "n")), ("o", (("a", "n"), ("b", ("a", "n"))))])
    p.update(prof)
    ctx.loads(fam_, [gen(ctx.seed * 1000003 + base * 100019 + i, **p) for i in range(count)])

def c02(ctx):
    r = random.Random(ctx.seed)
    ctx.loads("local variables", some(ctx, life.locals_(), 3000))
    ctx.loads("arguments", life.make(life.args_(q(ctx, 3000, 40000), r)))
    ctx.loads("forms of expressions", life.make(life.forms_(q(ctx, 4000, 100000), r), 6))
    ctx.loads("functions and current objects", some(ctx, life.functions_(), 2000))
    wild(ctx, "random", q(ctx, 1000, 20000), 2)

def c03(ctx):
    ctx.loads("mutability", some(ctx, life.muts_(), 2000))
    ctx.loads("scopes", some(ctx, life.scopes_(), 2000))
    wild(ctx, "random", q(ctx, 500, 10000), 3, cur=0.6, mut=3.0)

def c13(ctx):
    r = random.Random(ctx.seed)
    L = dict(run=False, module="DyonTypeLoad")
    def some(ps, k): return ps if not ctx.quick or len(ps) <= k else r.sample(ps, k)
    ctx.loads("what goes with what", typ.goes(), **L)
    ctx.loads("types inside of types", typ.inside(), **L)
    ctx.loads("the same in other places", some(typ.goes2(), 9000), **L)
    ctx.loads("library", typ.library(), **L)
    ctx.loads("operators", some(typ.operators(r, q(ctx, 1, 8)), 9000), **L)
    ctx.loads("assignments, results, returns, conditions", typ.assigns(), **L)
    ctx.loads("random", typ.rand([ctx.seed * 1000003 + 1300019 + i for i in range(q(ctx, 4000, 60000))]), **L)

def c16(ctx):
    r = random.Random(ctx.seed)
    T = "DyonModTrace"
    ctx.runs("names and namespaces", mods.uses_(q(ctx, 1800, None), r), T)
    ctx.runs("layers of modules", mods.layers(q(ctx, 500, None), r), T)
    for via in ("module", "load"):
        base = ctx.seed * 1000003 + 1600033
        ctx.runs("random, " + via, [mods.gen(base + i, via) for i in range(q(ctx, 300, 8000))], T)
        ctx.runs("random with errors, " + via, mods.failing([mods.gen(base + 300000 + i, via) for i in range(q(ctx, 300, 8000))], r), T)

def c17(ctx):
    r = random.Random(ctx.seed)
    P = dict(places=True, must_load=False)
    ctx.programs("operators", where.operators() if not ctx.quick else r.sample(where.operators(), 1500), **P)
    ctx.programs("cases of other properties", where.families(q(ctx, 1500, 100000), r), **P)
    base = ctx.seed * 1000003 + 1700033
    ctx.programs("random", [gen(base + i, errs=0.5, calls=3.0, clos=1.0, cur=0.4) for i in range(q(ctx, 600, 15000))], **P)
    for via in ("module", "load"):
        ps = [mods.gen(base + 500000 + i, via) for i in range(q(ctx, 400, 8000))]
        ctx.runs("modules, " + via, mods.failing(ps, r), "DyonModTrace")

def c18(ctx):
    r = random.Random(ctx.seed)
    T = "DyonDataTrace"
    ctx.runs("kinds inside of kinds", data.nested(r, 0), T)
    ctx.runs("colors", data.colors(r), T)
    ctx.runs("short texts", data.shorts(q(ctx, 12000, None), r), T)
    ctx.runs("written values", data.writes(q(ctx, 12000, 200000), r), T)
    ctx.runs("texts of values", data.reads(q(ctx, 12000, 200000), r), T)
    ctx.runs("broken texts", data.breaks(q(ctx, 20000, 300000), r), T)

def c19(ctx):
    r = random.Random(ctx.seed)
    T = "DyonConvTrace"
    ctx.runs("every type with every value", conv.matrix(), T)
    ctx.runs("values and near misses", conv.values(q(ctx, 6000, 100000), r), T)
    ctx.runs("Rust objects", conv.objects(q(ctx, 2000, 40000), r), T)

def c20(ctx):
    T = ["n", "n", "b", "s", ("a", "n"), ("a", "s"), ("opt", "n"), ("res", "n"), ("o", (("a", "n"), ("b", ("a", "n"))))]
    ctx.runs("results and what comes between", host.results(), "DyonHost")
    base = ctx.seed * 1000003 + 2000003
    ctx.runs("random", [host.Session(base + i, fns=5, cur=0.35, errs=0.15, q=1.5, types=T, calls=3.0, links=0) for i in range(q(ctx, 1000, 20000))], "DyonHost")
    ctx.runs("random, with lifetimes", [host.Session(base + 500000 + i, fns=3, wild=0.15, stmts=2, errs=0.05, types=T, links=0, calls=2.0) for i in range(q(ctx, 1000, 20000))], "DyonHost")

def c22(ctx):
    r = random.Random(ctx.seed)
    V = dict(variant="bare")
    for nm in ("closures", "currents", "err_state", "errors", "vectors", "returns", "lazies", "calls", "packed", "vecloops", "inferred", "order"):
        ps = fam.pack(getattr(fam, nm)())
        if ctx.quick and len(ps) > 60: ps = r.sample(ps, 60)
        ctx.programs(nm, ps, **V)
    ps = fam.pack(fam.ctl())
    ctx.programs("nested loops", ps if not ctx.quick else r.sample(ps, min(60, len(ps))), **V)
    for i, prof in enumerate([dict(), dict(clos=3.0), dict(cur=0.9, calls=3.0, fns=4), dict(q=3.0, tries=2.0, errs=0.2, opt=2.0), dict(loops=2.5, ifs=2.0, labels=0.8, acc=1.5), dict(vec=1.0, types=["v", "m", "n"], errs=0.0)]):
        ps = [gen(ctx.seed * 1000003 + 2200019 + i * 50021 + k, **prof) for k in range(q(ctx, 150, 5000))]
        ctx.programs("random %d" % i, ps, **V)
    def part(ps, k): return ps if not ctx.quick or len(ps) <= k else r.sample(ps, k)
    ctx.loads("lifetimes of local variables", some(ctx, life.locals_(), 300), **V)
    ctx.loads("lifetimes of arguments", life.make(life.args_(q(ctx, 300, 5000), r)), **V)
    ctx.loads("lifetimes of expressions", life.make(life.forms_(q(ctx, 600, 10000), r), 6), **V)
    ctx.loads("functions and current objects", some(ctx, life.functions_(), 300), **V)
    ctx.loads("mutability", some(ctx, life.muts_(), 300), **V)
    ctx.loads("scopes", some(ctx, life.scopes_(), 300), **V)
    T = dict(run=False, module="DyonTypeLoad", **V)
    def typ_(ps): return [p for p in ps if not re.search(r"\b(println|thr|in)\b", p.source())]
    ctx.loads("types", typ_(part(typ.goes(), 600)), **T)
    ctx.loads("types of operators", typ_(part(typ.operators(r, 1), 600)), **T)
    ctx.loads("types of assignments", typ_(part(typ.assigns(), 300)), **T)
    ctx.loads("random types", typ_(typ.rand([ctx.seed * 1000003 + 2250019 + i for i in range(q(ctx, 400, 8000))])), **T)
    ctx.loads("what needs threads", part(fam.pack(fam.threads(), 1) + fam.pack(fam.messages(), 1), 200), run=False, **V)
    A = dict(variant="async")
    for nm in ("threads", "messages"):
        ps = fam.pack(getattr(fam, nm)(), 4)
        ctx.programs(nm + " as tasks", ps if not ctx.quick else r.sample(ps, min(80, len(ps))), **A)
    for i, prof in enumerate([dict(threads=3, fns=4, stmts=4, errs=0.1, calls=2.0), dict(threads=2, ins=1, fns=3, stmts=3, calls=3.0)]):
        ps = [gen(ctx.seed * 1000003 + 2270019 + i * 50021 + k, **prof) for k in range(q(ctx, 200, 4000))]
        ctx.programs("random tasks %d" % i, ps, **A)

def c25(ctx):
    r = random.Random(ctx.seed)
    ctx.reprints("closures", fam.pack(fam.closures(), 1))
    ctx.reprints("expressions", clo.trees(q(ctx, 2500, 40000), r))
    ps = []
    for nm in ("ops", "order", "ctl", "ifs", "accs", "packed", "inferred", "vecloops", "errors", "err_state", "stdlib", "calls", "links", "lazies", "vectors", "secrets", "currents", "threads"):
        ps += fam.pack(clo.wrap(getattr(fam, nm)(), r, q(ctx, 150, 3000)), 1)
    ctx.reprints("cases of other properties", ps)
    base = ctx.seed * 1000003 + 2500033
    ctx.reprints("random", [gen(base + i, clos=3.0) for i in range(q(ctx, 600, 15000))])

def c26(ctx):
    r = random.Random(ctx.seed)
    T = "DyonMetaTrace"
    ctx.runs("short texts", metarules.small(), T)
    ctx.runs("random texts", metarules.rand(q(ctx, 1500, 30000), r), T)
    ctx.runs("rows of a program", metarules.toks(q(ctx, 600, 20000), r), T)

def c27(ctx):
    r = random.Random(ctx.seed)
    ctx.runs("modules", listing.rand(q(ctx, 600, 10000), r), "DyonListTrace")

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
          "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27}
