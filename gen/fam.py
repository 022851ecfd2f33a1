"""Enumerated families of programs."""
import copy, itertools, random
from ir import *

def pack(cases, per=12, fns=(), head=""):
    """cases: lists of statements, or (functions, statements); each one becomes a
    function of its own that is run under `try`, several to a program.
    fns: functions every program has."""
    progs = []
    groups = [[]]
    for c in cases:
        have = {}
        for d in groups[-1]:
            if isinstance(d, tuple): have.update({f.name: f for f in d[0]})
        clash = isinstance(c, tuple) and any(f.name in have and have[f.name] is not f for f in c[0])
        if len(groups[-1]) == per or clash: groups.append([])
        groups[-1].append(c)
    for group in groups:
        fs, body = list(fns), []
        for i, c in enumerate(group):
            extra, st = c if isinstance(c, tuple) else ([], c)
            fs += [f for f in extra if f.name not in [g.name for g in fs]]
            nm = "t%d" % i
            st = list(st)
            if not st or st[-1]["k"] not in ("ret",):
                st.append(ret(n(1)))
            fs.append(Fn(nm, [], block(*st)))
            body.append(decl("r%d" % i, try_(call(nm))))
            body.append(probe(var("r%d" % i)))
        fs.append(Fn("main", [], block(*body), rets=False))
        progs.append(Prog(fs, head=head))
    return progs

# ------------------------------------------------------------------ memory
MEM_FNS = [
    Fn("seta", ["p"], block(asg("=", "p", [I(0)], n(11))), rets=False, muts=["p"]),
    Fn("addx", ["p"], block(asg("+=", "p", [], n(20))), rets=False, muts=["p"]),
    Fn("seto", ["p"], block(asg("=", "p", [K("q"), I(0)], n(30)), asg("+=", "p", [K("p")], n(5))), rets=False, muts=["p"]),
    Fn("both", ["p", "w"], block(asg("+=", "p", [I(0)], var("w")), asg("=", "p", [I(1)], n(40)), probe(var("p"))),
       rets=False, muts=["p"]),
    Fn("store", ["p", "w"], block(asg("=", "p", [I(0)], var("w"))), rets=False, muts=["p"], lts={"w": "p"}),
    Fn("get", ["p"], block(ret(var("p"))), lts={"p": "return"}),
    Fn("first", ["p"], block(ret(item("p", [I(0)]))), lts={"p": "return"}),
]
def mem_base():
    return [decl("x", n(1)), decl("y", n(2)), decl("a", arr(var("x"), n(5))), decl("b", var("a")),
            decl("c", arr(var("a"), arr(var("x")))), decl("o", obj(("p", var("x")), ("q", var("a"))))]
def mem_ops():
    v, A = var, asg
    return [
        [A("=", "x", [], n(7))], [A("+=", "x", [], n(3))], [A("=", "y", [], v("x"))],
        [A("=", "a", [I(0)], n(9))], [A("+=", "a", [I(0)], n(1))], [A("=", "a", [I(1)], v("x"))], [A("=", "a", [I(0)], v("y"))],
        [A("=", "a", [], arr(v("y"), n(3)))], [A("=", "b", [], v("a"))], [A("=", "b", [], prim("clone", v("a")))],
        [A("=", "b", [I(0)], n(8))], [A("-=", "b", [I(0)], n(2))],
        [A("=", "c", [I(0), I(0)], n(6))], [A("=", "c", [I(0)], v("b"))], [A("=", "c", [I(0)], arr(n(4), n(4)))],
        [A("*=", "c", [I(1), I(0)], n(5))], [A("=", "c", [I(1)], v("a"))], [A("+=", "c", [E(arr(n(0), n(1)))], n(2))],
        [A("=", "o", [K("p")], n(3))], [A("+=", "o", [K("p")], n(1))], [A("=", "o", [K("q"), I(0)], n(2))],
        [A("=", "o", [K("q")], v("b"))], [A(":=", "o", [K("r")], v("x"))], [A(":=", "o", [K("q")], n(1))],
        [A("=", "o", [], obj(("p", v("y")), ("q", v("b"))))], [A("+=", "o", [E(prim("+", s("p"), s("")))], n(4))],
        [prim("push", v("a"), v("x"))], [prim("push_ref", v("a"), v("x"))], [prim("push_ref", v("c"), v("a"))],
        [prim("push", v("c"), v("a"))], [prim("insert_ref", v("a"), n(1), v("y"))], [probe(prim("pop", v("a")))],
        [probe(prim("remove", v("c"), n(0)))], [prim("swap", v("a"), n(0), n(1))], [prim("reverse", v("c"))],
        [prim("clear", v("b"))],
        [call("seta", v("a"))], [call("seta", v("b"))], [call("addx", v("x"))], [call("addx", v("y"))], [call("seto", v("o"))],
        [call("both", v("a"), v("x"))], [call("both", v("a"), item("a", [I(0)]))], [call("both", v("b"), item("a", [I(0)]))],
        [call("store", v("a"), v("x"))], [call("store", v("c"), v("a"))],
        [decl("d", item("c", [I(0)])), A("=", "d", [I(0)], n(12)), probe(v("d"))],
        [decl("d", call("get", v("a"))), A("=", "d", [I(1)], n(13)), probe(v("d"))],
        [decl("d", call("first", v("c"))), A("+=", "d", [I(0)], n(14)), probe(v("d"))],
        [decl("d", v("x")), A("+=", "d", [], n(15)), probe(v("d"))],
        [decl("d", fill(v("a"), n(2))), A("=", "d", [I(0), I(0)], n(16)), probe(v("d"))],
        [decl("d", prim("some", v("a"))), A("=", "a", [I(0)], n(17)), probe(v("d"))],
        [decl("d", arr(v("o"))), A("=", "d", [I(0), K("p")], n(18)), probe(v("d"))],
        [if_(prim("==", item("a", [I(0)]), n(1)), block(A("=", "a", [I(0)], n(19)), A("=", "x", [], n(21))))],
        [forn("for", "i", None, n(2), block(A("+=", "a", [E(var("i"))], n(1)), A("+=", "x", [], var("i"))))],
        [forn("for", "i", None, prim("len", v("c")), block(A("=", "c", [E(var("i")), I(0)], prim("+", n(0), var("i")))))],
    ]
MEM_ALL = ["x", "y", "a", "b", "c", "o"]
def memory(depth, limit=None, rng=None):
    ops = mem_ops()
    combos = list(itertools.product(range(len(ops)), repeat=depth))
    if limit and len(combos) > limit:
        combos = rng.sample(combos, limit)
    cases = []
    for co in combos:
        st = mem_base()
        for i in co:
            st += ops[i]
        cases.append(st + [probe(arr(*[var(x) for x in MEM_ALL]))])
    return pack(cases, 12, MEM_FNS)

# ------------------------------------------------------------------ control flow
def ctl():
    """Nested loops of every kind with every jump at every iteration."""
    cases = []
    def mk(kd, x, lim, lb, body):
        """a loop over x in 0..lim-1 with the given statements; gives (pre, loop expr, is value)"""
        if kd == "cfor":
            return [], for_(decl(x, n(0)), prim("<", var(x), n(lim)), asg("+=", x, [], n(1)), block(*body), lb), False
        if kd == "loop":
            b2 = [asg("+=", x, [], n(1)), if_(prim(">", var(x), n(lim)), block(brk()))] + body
            return [decl(x, n(0))], loop(block(*b2), lb), False
        if kd == "for":
            return [], forn("for", x, None, n(lim), block(*body), lb), False
        val = {"sum": var(x), "prod": prim("+", var(x), n(1)), "min": prim("-", n(5), var(x)), "max": var(x),
               "any": prim(">", var(x), n(5)), "all": prim("<", var(x), n(5)), "sift": prim("+", var(x), n(0)),
               "link": None}[kd]
        if val["k"] == "var": val = prim("+", val, n(0))
        return [], forn(kd, x, None, n(lim), block(*(body + [val])), lb), True
    kinds = ["for", "cfor", "loop", "sum", "min", "any", "all", "sift", "max", "prod"]
    for ok, ik in itertools.product(kinds, kinds):
        for jump in ("brk", "brkO", "brkI", "cont", "contO", "contI", "ret"):
            j = {"brk": brk(), "brkO": brk("o"), "brkI": brk("i"), "cont": cont(), "contO": cont("o"),
                 "contI": cont("i"), "ret": ret(n(77))}[jump]
            inner = [probe(arr(prim("+", var("x"), n(0)), prim("+", var("y"), n(0)))),
                     if_(prim("and", prim("==", var("x"), n(1)), prim("==", var("y"), n(1))), block(j))]
            p, il, isv = mk(ik, "y", 3, "i", inner)
            ob = p + ([decl("z", il), probe(var("z"))] if isv else [il]) + [probe(prim("+", s("after"), s("")))]
            p, ol, osv = mk(ok, "x", 3, "o", ob)
            cases.append(p + ([decl("w", ol), probe(var("w"))] if osv else [ol]) + [probe(n(99))])
    return cases

def ctl3():
    """Three levels; a jump from the innermost loop to each of the others."""
    cases = []
    kinds = ["for", "sum", "cfor", "sift"]
    for ks in itertools.product(kinds, repeat=3):
        for jump in (brk("l1"), brk("l2"), brk("l3"), cont("l1"), cont("l2"), cont("l3"), ret(n(5))):
            body = [probe(arr(*[prim("+", var("x%d" % k), n(0)) for k in (1, 2, 3)])),
                    if_(prim("==", prim("+", prim("+", var("x1"), var("x2")), var("x3")), n(2)), block(jump))]
            for lv in (3, 2, 1):
                x, kd = "x%d" % lv, ks[lv - 1]
                if kd == "cfor":
                    body = [for_(decl(x, n(0)), prim("<", var(x), n(2)), asg("+=", x, [], n(1)), block(*body), "l%d" % lv)]
                elif kd == "for":
                    body = [forn("for", x, None, n(2), block(*body), "l%d" % lv)]
                else:
                    body = [decl("z%d" % lv, forn(kd, x, None, n(2), block(*(body + [prim("+", var(x), n(1))])), "l%d" % lv)),
                            probe(var("z%d" % lv))]
            cases.append(body)
    return cases

def ifs():
    """Chains of if / else if / else with every truth assignment and values."""
    cases = []
    for k in (1, 2, 3, 4):
        for tr in itertools.product([False, True], repeat=k):
            for has_else in (False, True):
                el = block(probe(s("else"))) if has_else else None
                for i in reversed(range(k)):
                    el = if_(prim("pr", b(tr[i])), block(probe(n(i))), el)
                st = [el]
                el = block(n(100)) if True else None
                for i in reversed(range(k)):
                    el = if_(prim("pr", b(tr[i])), block(probe(n(10 + i)), n(i)), el)
                st += [decl("v", el), probe(var("v"))]
                cases.append(st)
    return cases

def returns():
    """return from inside of expressions, blocks and loops."""
    cases = []
    inner = [ret(n(1)), block(ret(n(2))), if_(b(True), block(ret(n(3))))]
    for k, r in enumerate(inner):
        for form in range(9):
            st = [probe(n(0))]
            if form == 0: st += [r]
            if form == 1: st += [forn("for", "i", None, n(3), block(probe(prim("+", var("i"), n(0))), r))]
            if form == 2: st += [loop(block(r))]
            if form == 3: st += [if_(b(False), block(probe(n(1))), block(r))]
            if form == 4: st += [decl("q", forn("sum", "i", None, n(2), block(if_(prim("==", var("i"), n(1)), block(r)), n(4)))), probe(var("q"))]
            if form == 5: st += [decl("q", forn("sift", "i", None, n(2), block(forn("for", "k", None, n(2), block(r)), n(4)))), probe(var("q"))]
            if form == 6: st += [for_(decl("i", n(0)), prim("<", var("i"), n(3)), asg("+=", "i", [], n(1)), block(if_(prim("==", var("i"), n(2)), block(r))))]
            if form == 7: st += [asg("=", "return", [], n(50)), if_(b(k == 1), block(r))]
            if form == 8: st += [asg("=", "return", [], n(50)), asg("+=", "return", [], n(3)), probe(var("return")), if_(b(k == 0), block(r))]
            f = Fn("g", [], block(*(st + ([] if form in (7, 8) else [ret(n(9))]))))
            f.name = "g%d_%d" % (k, form)
            cases.append(([f], [decl("v", call(f.name)), probe(var("v"))]))
    return cases

# ------------------------------------------------------------------ loops that compute
KDS = ["sum", "prod", "min", "max", "any", "all", "sift", "link"]
def acc_body(kd, x):
    v = var(x)
    return {"sum": prim("-", prim("*", v, v), n(3)), "prod": prim("+", v, n(2)), "min": prim("%", prim("*", v, n(3)), n(4)),
            "max": prim("%", prim("*", v, n(3)), n(4)), "any": prim("==", prim("%", v, n(3)), n(2)),
            "all": prim("!=", prim("%", v, n(3)), n(2)), "sift": arr(prim("+", v, n(1)), prim("clone", v)),
            "link": prim("*", v, v)}[kd]
def accs():
    cases = []
    ranges = [(None, e) for e in range(-1, 6)] + [(a, e) for a in (-2, -1, 0, 1, 3) for e in (-3, -1, 0, 1, 2, 4)]
    for kd in KDS:
        for a, e in ranges:
            if kd == "link":
                lp = forn(kd, "i", None if a is None else n(a), n(e), None, a=[acc_body(kd, "i"), s("k")])
            else:
                lp = forn(kd, "i", None if a is None else n(a), n(e), block(acc_body(kd, "i")))
            cases.append([decl("r", lp), probe(var("r"))])
    # ends that are not whole numbers of variables, evaluated once
    for kd in KDS:
        bd = dict(body=None, a=[prim("pr", acc_body(kd, "i"))]) if kd == "link" else dict(body=block(prim("pr", acc_body(kd, "i"))))
        for st, en in ((prim("pr", n(1)), prim("pr", n(3))), (None, prim("pr", n(2)))):
            cases.append([decl("m", n(3)), decl("r", forn(kd, "i", st, en, **bd)), probe(var("r"))])
    # values in different order for min, max, with ties; first and last decide
    for perm in itertools.product([1, 2, 3], repeat=3):
        for kd in ("min", "max"):
            cases.append([decl("a", arr(*[n(x) for x in perm])),
                          decl("r", forn(kd, "i", None, prim("len", var("a")), block(prim("clone", item("a", [E(var("i"))]))))), probe(var("r"))])
    for tv in itertools.product([False, True], repeat=3):
        for kd in ("any", "all"):
            cases.append([decl("a", arr(*[b(x) for x in tv])),
                          decl("r", forn(kd, "i", None, n(3), block(prim("pr", prim("clone", item("a", [E(var("i"))])))))), probe(var("r"))])
    # break and continue in the middle, from an inner loop, with labels
    for kd in KDS:
        if kd == "link": continue
        for at in range(3):
            for jump in (brk(), cont(), brk("o"), cont("o")):
                cases.append([decl("r", forn(kd, "i", None, n(4), block(if_(prim("==", var("i"), n(at)), block(jump)), acc_body(kd, "i")), "o")),
                              probe(var("r"))])
                cases.append([decl("r", forn(kd, "i", None, n(4), block(
                    forn("for", "k", None, n(3), block(probe(prim("+", var("k"), n(0))),
                         if_(prim("and", prim("==", var("i"), n(at)), prim("==", var("k"), n(1))), block(jump)))), acc_body(kd, "i")), "o")),
                    probe(var("r"))])
    # nested: each kind in each kind
    for k1, k2 in itertools.product(["sum", "prod", "min", "max", "sift", "any", "all"], repeat=2):
        inner = forn(k2, "k", n(1), n(4), block(prim("%", prim("+", var("i"), var("k")), n(3)) if k2 not in ("any", "all")
                     else prim("==", prim("+", var("i"), var("k")), n(4))))
        if k2 == "sift":
            inner = prim("len", inner)
        num = k2 not in ("any", "all")
        if k1 in ("any", "all") and num: inner = prim(">", inner, n(1))
        if k1 not in ("any", "all", "sift") and not num: inner = if_(inner, block(n(2)), block(n(1)))
        cases.append([decl("r", forn(k1, "i", n(0), n(4), block(inner))), probe(var("r"))])
    return cases

def packed():
    """Several counters in one loop, and ends found from the body."""
    cases = []
    for kd in KDS:
        for n1, n2 in itertools.product(range(0, 3), range(0, 4)):
            for rng in (False, True):
                e = prim("+", prim("*", var("i"), n(10)), var("k"))
                if kd in ("any", "all"): e = prim("==", e, n(11)) if kd == "any" else prim("!=", e, n(11))
                if kd == "prod": e = prim("+", prim("%", e, n(3)), n(1))
                st = n(1) if rng else None
                if kd == "link":
                    lp = forn(kd, "i", None, n(n1), None, pk=True, packed=True,
                              a=[forn(kd, "k", st, n(n2), None, a=[e, s(",")])])
                else:
                    lp = forn(kd, "i", None, n(n1), forn(kd, "k", st, n(n2), block(e)), packed=True)
                cases.append([decl("r", lp), probe(var("r"))])
    for n1, n2, n3 in itertools.product(range(1, 3), repeat=3):
        for kd in ("sum", "sift", "for"):
            e = prim("pr", prim("+", prim("*", prim("+", prim("*", var("i"), n(10)), var("k")), n(10)), var("m")))
            if kd == "for": e = probe(e)
            lp = forn(kd, "i", None, n(n1), forn(kd, "k", None, n(n2), forn(kd, "m", n(0), n(n3), block(e)), packed=True), packed=True)
            cases.append([lp] if kd == "for" else [decl("r", lp), probe(var("r"))])
    # jumps out of packed loops
    for kd in ("sum", "for", "sift", "min"):
        for jump in (brk("z"), cont("z"), brk(), cont()):
            e = [probe(arr(prim("+", var("i"), n(0)), prim("+", var("k"), n(0)))),
                 if_(prim("==", prim("+", var("i"), var("k")), n(2)), block(jump))]
            if kd != "for": e.append(prim("+", var("i"), var("k")))
            lp = forn(kd, "i", None, n(3), forn(kd, "k", None, n(3), block(*e)), lb="z", packed=True)
            cases.append([lp] if kd == "for" else [decl("r", lp), probe(var("r"))])
    return cases

def inferred():
    cases = []
    A = arr(arr(n(1), n(2), n(3)), arr(n(4)), arr(n(5), n(6)))
    for kd in KDS + ["for"]:
        L = prim("len", var("a"))
        at = item("a", [E(var("i"))])
        forms = [prim("len", at)]
        for e in forms:
            if kd in ("any", "all"): e = prim(">", e, n(1))
            bd = dict(body=None, a=[e]) if kd == "link" else dict(body=block(probe(e) if kd == "for" else e))
            lp = forn(kd, "i", None, L, infer=True, **bd)
            cases.append([decl("a", A), lp] if kd == "for" else [decl("a", A), decl("r", lp), probe(var("r"))])
        # two counters: the second one runs over an item of the first
        e = prim("+", item("a", [E(var("i")), E(var("k"))]), n(0))
        if kd in ("any", "all"): e = prim(">", e, n(2))
        L2 = prim("len", item("a", [E(var("i"))]))
        if kd == "link":
            lp = forn(kd, "i", None, L, None, infer=True, pk=True, packed=True, a=[forn(kd, "k", None, L2, None, infer=True, a=[e])])
        else:
            lp = forn(kd, "i", None, L, forn(kd, "k", None, L2, block(probe(e) if kd == "for" else e), infer=True), infer=True, packed=True)
        cases.append([decl("a", A), lp] if kd == "for" else [decl("a", A), decl("r", lp), probe(var("r"))])
        # deeper: an object inside
        e = prim("+", item("o", [K("q"), E(var("i"))]), n(0))
        if kd in ("any", "all"): e = prim(">", e, n(2))
        L3 = prim("len", item("o", [K("q")]))
        bd = dict(body=None, a=[e]) if kd == "link" else dict(body=block(probe(e) if kd == "for" else e))
        lp = forn(kd, "i", None, L3, infer=True, **bd)
        o = decl("o", obj(("p", n(1)), ("q", arr(n(1), n(2), n(3)))))
        cases.append([o, lp] if kd == "for" else [o, decl("r", lp), probe(var("r"))])
    return cases

def vecloops():
    cases = []
    for kd in ("sumv", "prodv"):
        for a, e in [(None, 0), (None, 1), (None, 3), (1, 3), (2, 1), (-1, 2)]:
            lp = forn(kd, "i", None if a is None else n(a), n(e), block(vec4(var("i"), prim("+", var("i"), n(1)), n(2), prim("-", n(1), var("i")))))
            cases.append([decl("r", lp), probe(var("r"))])
            for jump in (brk(), cont()):
                lp = forn(kd, "i", None if a is None else n(a), n(e), block(if_(prim("==", var("i"), n(1)), block(jump)),
                          vec4(var("i"), prim("+", var("i"), n(1)), n(2), prim("-", n(1), var("i")))))
                cases.append([decl("r", lp), probe(var("r"))])
    return cases

# ------------------------------------------------------------------ secrets
def secrets():
    cases = []
    def why(e, t): return prim("why" if t == "b" else "where", e)
    A = decl("a", arr(arr(n(1), n(5), n(2)), arr(n(7), n(0)), arr(n(3), n(3), n(9))))
    at = prim("clone", item("a", [E(var("i")), E(var("k"))]))
    for k1, k2 in itertools.product(["any", "all", "min", "max"], repeat=2):
        for thr in (0, 3, 6, 100):
            inner_n = forn(k2 if k2 in ("min", "max") else "min", "k", None, prim("len", item("a", [E(var("i"))])), block(at))
            if k2 in ("any", "all"):
                inner = forn(k2, "k", None, prim("len", item("a", [E(var("i"))])), block(prim(">", at, n(thr))))
                if k1 in ("min", "max"):
                    inner = None
            else:
                inner = inner_n
                if k1 in ("any", "all"): inner = prim(">", inner_n, n(thr))
            if inner is None: continue
            lp = forn(k1, "i", None, n(3), block(inner))
            st = [A, decl("r", lp), probe(var("r"))]
            t = "b" if k1 in ("any", "all") else "n"
            cases.append(st + [decl("w", try_(why(var("r"), t))), probe(var("w"))])
            if t == "b":
                cases.append(st + [decl("m", prim("not", var("r"))), probe(var("m")), decl("w", try_(why(var("m"), t))), probe(var("w"))])
                for op in ("and", "or", "==", "+", "*", "^", "-"):
                    for other in (True, False):
                        cases.append(st + [decl("m", prim(op, var("r"), b(other))), probe(var("m")),
                                           decl("m2", prim(op, b(other), var("r"))), probe(var("m2"))])
                cases.append(st + [if_(var("r"), block(decl("w", why(var("r"), t)), probe(var("w"))), block(decl("w", why(prim("not", var("r")), t)), probe(var("w"))))])
            else:
                for op in ("+", "-", "*", "%", "<", "<=", ">", ">=", "==", "!="):
                    cases.append(st + [decl("m", prim(op, var("r"), n(2))), probe(var("m")),
                                       decl("m2", prim(op, n(2), var("r"))), probe(var("m2"))])
                cases.append(st + [decl("m", prim("neg", var("r"))), probe(var("m")), asg("+=", "m", [], n(1)), probe(var("m"))])
                cases.append(st + [decl("m", n(1)), asg("+=", "m", [], var("r")), probe(var("m")), asg("=", "m", [], var("r")), probe(var("m"))])
    # explanations added by hand
    for t, base in (("b", b(True)), ("b", b(False)), ("n", n(4))):
        ex = "explain_why" if t == "b" else "explain_where"
        e1 = prim(ex, base, s("one"))
        e2 = prim(ex, e1, arr(n(1), s("two")))
        for e in (e1, e2, prim(ex, base, obj(("k", n(1))))):
            cases.append([decl("r", e), probe(var("r")), decl("w", try_(why(var("r"), t))), probe(var("w"))])
    # an explanation is a copy
    cases.append([decl("x", arr(n(1))), decl("r", prim("explain_why", b(True), var("x"))), asg("=", "x", [I(0)], n(9)), probe(var("r")),
                  probe(prim("why", var("r")))])
    # secrets travel through functions, arrays, objects, options
    f = Fn("idb", ["p"], block(ret(prim("clone", var("p")))))
    src_ = decl("r", forn("any", "i", None, n(3), block(prim("==", var("i"), n(1)))))
    for st in ([decl("v", call("idb", var("r")))], [decl("z", arr(var("r"))), decl("v", prim("clone", item("z", [I(0)])))],
               [decl("z", obj(("k", var("r")))), decl("v", prim("clone", item("z", [K("k")])))],
               [decl("z", prim("some", var("r"))), decl("v", prim("unwrap", var("z")))],
               [decl("v", prim("explain_why", b(False), n(1))), asg("=", "v", [], var("r"))],
               [decl("z", try_(prim("clone", var("r")))), decl("v", prim("unwrap", var("z")))],
               [decl("v", if_(b(True), block(prim("clone", var("r"))), block(prim("clone", var("r")))))],
               [decl("v", prim("explain_why", var("r"), s("more")))],
               [decl("z", link(var("r"))), decl("v", prim("unwrap", prim("head", var("z"))))]):
        cases.append(([f], [src_] + st + [probe(var("v")), decl("w", try_(prim("why", var("v")))), probe(var("w"))]))
    return cases

def secret_why_rejects():
    """why and where of values that have none, are false or NaN: run time errors."""
    cases = []
    for e in (b(True), b(False), prim("explain_why", b(False), n(1))):
        cases.append([decl("w", try_(prim("why", prim("dynv", e)))), probe(var("w"))])
    for e in (n(3), prim("explain_where", n(3), n(1)), prim("explain_where", prim("min", arr()), n(1)), prim("min", arr())):
        cases.append([decl("w", try_(prim("where", prim("dynv", e)))), probe(var("w"))])
    return cases

# ------------------------------------------------------------------ errors
def errors():
    cases = []
    vals = {"some": prim("some", n(3)), "none": prim("none"), "ok": prim("ok", n(4)), "err": prim("err", s("bad")),
            "tb": prim("explain_why", b(True), n(1)), "fb": prim("explain_why", b(False), n(1)), "b": b(True),
            "num": prim("explain_where", n(5), n(1)), "plain": n(5), "str": s("q"), "okok": prim("ok", prim("ok", n(1))),
            "someerr": prim("some", prim("err", s("in"))), "errarr": prim("err", arr(n(1), n(2))), "nan": prim("explain_where", prim("min", arr()), n(0)),
            "try": try_(prim("boom", n(1))), "tryok": try_(prim("+", n(1), n(1)))}
    D = lambda e: prim("dynv", e)
    # `?` in a function, seen by the caller, one to three calls deep
    for nm, v in vals.items():
        f1 = Fn("g1", ["p"], block(probe(n(1)), decl("z", q(var("p"))), probe(var("z")), ret(prim("ok", var("z")))))
        f2 = Fn("g2", ["p"], block(decl("z", q(call("g1", var("p")))), probe(s("two")), ret(prim("ok", var("z")))))
        f3 = Fn("g3", ["p"], block(decl("z", prim("+", q(call("g2", var("p"))), n(1))), probe(var("z")), ret(prim("ok", var("z")))))
        for f in ("g1", "g2", "g3"):
            cases.append(([f1, f2, f3], [decl("r", call(f, D(v))), probe(var("r"))]))
        for op in ("unwrap", "unwrap_err", "is_ok", "is_err", "clone", "some", "ok", "err", "typeof"):
            cases.append([decl("r", try_(prim(op, D(v)))), probe(var("r"))])
        cases.append([decl("r", try_(prim("unwrap_or", D(v), prim("pr", n(8))))), probe(var("r"))])
        cases.append([decl("r", try_(prim("==", D(v), D(v)))), probe(var("r"))])
        for nm2, v2 in vals.items():
            if nm2 in ("some", "none", "ok", "err", "plain"):
                cases.append([decl("r", try_(prim("==", D(v), D(v2)))), probe(var("r")), decl("r2", try_(prim("!=", D(v2), D(v)))), probe(var("r2"))])
    # where `?` stands: argument, array, object, loop, condition, block, operand, after return
    for bad in (False, True):
        v = decl("v", prim("err", s("E")) if bad else prim("ok", n(2)))
        Q = q(var("v"))
        forms = [[probe(prim("+", prim("pr", n(1)), Q))], [decl("z", arr(n(1), Q, prim("pr", n(3)))), probe(var("z"))],
                 [decl("z", obj(("k", Q), ("m", prim("pr", n(1))))), probe(var("z"))],
                 [forn("for", "i", None, n(2), block(probe(prim("+", var("i"), n(0))), probe(Q)))],
                 [if_(prim("==", Q, n(2)), block(probe(s("yes"))))], [decl("z", block(probe(n(0)), prim("+", Q, n(1)))), probe(var("z"))],
                 [decl("z", forn("sum", "i", None, n(3), block(Q))), probe(var("z"))],
                 [decl("z", forn("sift", "i", None, n(2), block(prim("+", Q, var("i"))))), probe(var("z"))],
                 [decl("z", try_(Q)), probe(var("z"))], [decl("z", n(1)), asg("=", "z", [], Q), probe(var("z"))],
                 [decl("z", arr(n(1))), asg("+=", "z", [I(0)], Q), probe(var("z"))],
                 [decl("z", vec4(Q, n(1), n(2), n(3))), probe(var("z"))], [decl("z", link(n(1), Q)), probe(var("z"))],
                 [decl("z", prim("unwrap_or", prim("none"), Q)), probe(var("z"))],
                 [decl("z", prim("and", b(False), prim("==", Q, n(2)))), probe(var("z"))],
                 [asg("=", "return", [], prim("ok", n(70))), probe(Q)],
                 [decl("z", fill(Q, n(2))), probe(var("z"))]]
        for i, st in enumerate(forms):
            f = Fn("h%d%d" % (i, bad), [], block(*([v] + st + [ret(prim("ok", n(50)))])))
            cases.append(([f], [decl("r", try_(call(f.name))), probe(var("r"))]))
    # `?` inside of a path
    for ka, kb in itertools.product(["ok", "err", "some", "none"], repeat=2):
        mkv = lambda k, e: {"ok": prim("ok", e), "err": prim("err", s("x")), "some": prim("some", e), "none": prim("none")}[k]
        o = decl("o", obj(("p", mkv(ka, obj(("q", mkv(kb, arr(n(1), n(2)))))))))
        f = Fn("p%s%s" % (ka, kb), [], block(o, decl("z", item("o", [K("p"), K("q"), I(1)], [1, 2])), probe(prim("clone", var("z"))), ret(prim("ok", n(5)))))
        cases.append(([f], [decl("r", call(f.name)), probe(var("r"))]))
        f = Fn("s%s%s" % (ka, kb), [], block(decl("a", arr(mkv(ka, n(1)), mkv(kb, n(2)))), decl("z", item("a", [E(prim("+", n(0), n(1)))], [1])), probe(prim("clone", var("z"))), ret(prim("ok", n(5)))))
        cases.append(([f], [decl("r", call(f.name)), probe(var("r"))]))
    # functions that return nothing, or no result, with `?`
    f = Fn("nv", ["p"], block(probe(q(var("p"))), probe(n(2))), rets=False)
    for e in (prim("ok", n(1)), prim("err", n(2)), prim("some", n(3)), prim("none")):
        cases.append(([f], [decl("r", try_(block(call("nv", e), n(1)))), probe(var("r"))]))
    # try: everything that happened before the error stays, names are restored
    fails = [prim("boom", n(1)), prim("unwrap", prim("none")), item("a", [I(9)]), prim("+", D(n(1)), D(s("x"))), item("o", [K("zz")]), call("deep", n(3))]
    deep = Fn("deep", ["k"], block(decl("t", arr(var("k"))), if_(prim("==", var("k"), n(0)), block(probe(prim("boom", n(7))))),
                                  decl("u", call("deep", prim("-", var("k"), n(1)))), ret(prim("clone", var("u")))))
    for fl in fails:
        for place in range(6):
            pre = [decl("x", n(1)), decl("a", arr(n(1), n(2))), decl("o", obj(("k", n(3))))]
            inner = [asg("=", "x", [], n(5)), prim("push", var("a"), n(6)), decl("y", n(7)), probe(var("y"))]
            if place == 0: t = block(*(inner + [fl]))
            if place == 1: t = block(*(inner + [forn("for", "i", None, n(3), block(decl("w", n(4)), if_(prim("==", var("i"), n(1)), block(probe(fl))))), n(1)]))
            if place == 2: t = arr(n(1), fl)
            if place == 3: t = block(*(inner + [decl("r0", try_(fl)), probe(var("r0")), prim("boom", n(2))]))
            if place == 4: t = block(*(inner + [if_(b(True), block(probe(fl))), n(3)]))
            if place == 5: t = forn("sum", "i", None, n(3), block(decl("w", prim("+", var("i"), n(0))), probe(var("w")), if_(prim("==", var("i"), n(2)), block(probe(fl))), n(1)))
            cases.append(([deep], pre + [decl("r", try_(t)), probe(var("r")), decl("z", n(8)), probe(arr(var("x"), var("a"), var("o"), var("z")))]))
    return cases

def err_state():
    """What a caught error leaves behind: variables, names, current objects, the calling function."""
    cases = []
    rd = Fn("rd", [], block(ret(prim("clone", var("c")))), cus=["c"])
    up = Fn("up", [], block(asg("+=", "c", [], n(1))), rets=False, cus=["c"], curmut=["c"])
    def mid(name, st): return Fn(name, ["k"], block(*(st + [ret(n(5))])))
    C = lambda v: decl("c", v, cur=True)
    bodies = [[C(n(70)), probe(call("rd")), probe(prim("boom", n(1)))], [decl("z", n(3)), C(n(71)), call("up"), probe(item("ar", [I(5)]))],
              [forn("for", "i", None, n(3), block(C(prim("+", n(80), var("i"))), if_(prim("==", var("i"), n(1)), block(probe(prim("boom", n(2)))))))],
              [if_(b(True), block(C(n(90)), decl("y", n(1)), probe(prim("unwrap", prim("none")))))], [C(n(91)), decl("r", try_(prim("boom", n(2)))), probe(call("rd")), probe(prim("boom", n(3)))],
              [decl("u", forn("sum", "i", None, n(3), block(C(n(92)), prim("boom", call("rd"))))), probe(var("u"))],
              [decl("f", clos(["x"], block(decl("w", prim("boom", n(4))), prim("clone", var("w"))))), C(n(93)), probe(callc("f", [], n(1)))]]
    forms = [lambda f: call(f, n(1)), lambda f: arr(n(1), call(f, n(2))), lambda f: prim("+", n(1), call(f, n(2))), lambda f: block(C(n(60)), decl("q", n(4)), call(f, n(2))),
             lambda f: block(C(n(61)), decl("q", try_(call(f, n(2)))), probe(call("rd")), prim("boom", n(9))), lambda f: forn("sum", "i", None, n(2), block(C(n(62)), call(f, n(2)))), lambda f: obj(("k", call(f, n(3))))]
    for i, st in enumerate(bodies):
        f = mid("b%d" % i, [decl("ar", arr(n(1)))] + st)
        g = Fn("g%d" % i, [], block(C(n(50)), decl("l", n(2)), ret(call(f.name, n(1)))))
        for fm in forms:
            for h in (f, g):
                e = fm(f.name) if h is f else (call(g.name) if fm is forms[0] else None)
                if e is None: continue
                cases.append(([rd, up, f, g], [C(n(1)), decl("x", n(2)), decl("r", try_(e)), probe(prim("is_err", var("r"))), probe(call("rd")), decl("y", n(3)), call("up"), probe(call("rd")), probe(arr(var("x"), var("y"), var("c"))),
                                                C(n(40)), probe(call("rd"))]))
                cases.append(([rd, up, f, g], [decl("x", n(2)), decl("r", try_(e)), probe(prim("is_err", var("r"))), decl("y", n(3)), decl("r2", try_(call("rd"))), probe(prim("is_ok", var("r2"))), probe(arr(var("x"), var("y")))]))
    return cases

# ------------------------------------------------------------------ operators
def opvals():
    return {"n0": n(0), "n2": n(2), "n3": n(3), "n-4": n(-4), "n7": n(7), "t": b(True), "f": b(False), "s": s("ab"), "s2": s("b"), "se": s(""),
            "l": link(n(1), s("x")), "l0": link(), "v": vec4(n(1), n(2), n(3), n(4)), "v2": vec4(n(2), n(-1), n(0), n(5)),
            "m": mat4(vec4(n(1), n(2), n(0), n(1)), vec4(n(0), n(1), n(3), n(0)), vec4(n(2), n(0), n(1), n(0)), vec4(n(0), n(1), n(0), n(1))),
            "m2": mat4(vec4(n(1), n(0), n(0), n(5)), vec4(n(0), n(2), n(0), n(6)), vec4(n(0), n(0), n(3), n(7)), vec4(n(0), n(0), n(0), n(1))),
            "a": arr(n(1), n(2)), "a2": arr(n(1), s("x")), "a3": arr(n(1), n(2), n(3)), "o": obj(("k", n(1))), "o2": obj(("k", n(2))), "o3": obj(("k", n(1)), ("m", n(1))),
            "sm": prim("some", n(1)), "sm2": prim("some", n(2)), "no": prim("none"), "ok": prim("ok", n(1)), "er": prim("err", n(1)),
            "nan": prim("min", arr()), "aa": arr(arr(n(1)), arr()), "aa2": arr(arr(n(2)), arr())}
BIN = ["+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "and", "or", "dot", "cross"]
def _k(e):
    """number, vector, matrix, NaN or another kind of value; numbers with what they are"""
    if e["k"] == "lit" and e["v"][0] == "n": return ("n", [e["v"][1]])
    if e["k"] == "vec4": return ("v", [c["v"][1] for c in e["a"]])
    if e["k"] == "mat4": return ("m", [0])
    if e["k"] == "prim" and e["op"] == "min": return ("x", [])
    return ("", [])
def op_dom(op, x, y):
    """Is the result of x op y within the domain of the specification?"""
    (k1, v1), (k2, v2) = _k(x), _k(y)
    if not k1 or not k2: return True
    if "x" in (k1, k2): return op != "^" and k1 in "nx" and k2 in "nx" or op in ("==", "!=", "<", "<=", ">", ">=", "and", "or", "cross")
    if op not in "/%^" or "m" in (k1, k2): return True
    l = max(len(v1), len(v2))
    for i in range(l):
        p, q_ = v1[i % len(v1)], v2[i % len(v2)]
        if op == "/" and (q_ == 0 and p != 0 or q_ == 0 and l > 1 or q_ and p % q_): return False
        if op == "%" and q_ == 0 and l > 1: return False
        if op == "^" and q_ < 0: return False
        if op in "/%" and p < 0 and (q_ == 0 or p % abs(q_) == 0): return False  # zeros with a sign
    return True
def ops():
    cases = []
    vs = opvals()
    for op in BIN:
        for x in vs.values():
            st = []
            for j, y in enumerate(vs.values()):
                if not op_dom(op, x, y): continue
                # through variables: references to them are followed
                st += [decl("x", prim("dynv", x)), decl("y", prim("dynv", y)), decl("r%d" % j, try_(prim(op, var("x"), var("y")))), probe(var("r%d" % j))]
            cases.append(st)
    for x in vs.values():
        st = []
        for op in ("neg", "not", "str", "typeof", "clone", "len", "is_empty"):
            if op == "str" and _k(x)[0] in ("v", "m", "x"): continue
            if x["k"] == "lit" and x["v"] == ["n", 0] and op == "neg": continue
            if op == "neg" and _k(x)[0] in ("v", "m") and op == "neg": continue
            st += [decl("x", prim("dynv", x)), decl("r", try_(prim(op, var("x")))), probe(var("r"))]
        cases.append(st)
    for op in ("=", "+=", "-=", "*=", "/=", "%=", "^="):
        for x in vs.values():
            st = []
            for y in vs.values():
                if not op_dom(op[0], x, y): continue
                # to a variable, and to an item that is its own
                st += [decl("y", prim("dynv", y)), decl("x", prim("dynv", x)), decl("r", try_(block(asg(op, "x", [], var("y")), n(1)))), probe(arr(var("x"), var("y"))), probe(prim("is_ok", var("r"))),
                       decl("x", prim("dynv", x)), decl("z", arr(prim("clone", var("x")))), decl("r", try_(block(asg(op, "z", [I(0)], var("y")), n(1)))), probe(var("z")), probe(prim("is_ok", var("r"))), probe(var("x"))]
            cases.append(st)
    return cases

def order():
    """Everything that has parts, with every part observed, and one part failing."""
    P = lambda k: prim("pr", n(k))
    cases = []
    f3 = Fn("f3", ["p", "q", "r"], block(probe(s("in")), ret(prim("+", prim("+", var("p"), var("q")), var("r")))))
    forms = [lambda a: prim("+", a[0], a[1]), lambda a: prim("-", prim("*", a[0], a[1]), a[2]), lambda a: prim("*", a[0], prim("-", a[1], a[2])),
             lambda a: prim("<", a[0], a[1]), lambda a: prim("==", a[0], a[1]), lambda a: prim("^", a[0], a[1]), lambda a: arr(*a), lambda a: obj(("k", a[0]), ("j", a[1]), ("i", a[2])),
             lambda a: fill(a[0], a[1]), lambda a: vec4(a[0], a[1], a[2], a[0]), lambda a: link(*a), lambda a: call("f3", *a),
             lambda a: prim("swap", var("z"), a[0], a[1]), lambda a: prim("insert", var("z"), a[0], a[1]),
             lambda a: item("zz", [E(a[0]), E(a[1])]), lambda a: asg("=", "zz", [E(a[0]), E(a[1])], a[2]), lambda a: asg("+=", "zz", [E(a[0]), E(a[1])], a[2]),
             lambda a: forn("sum", "i", a[0], a[1], block(prim("pr", prim("+", var("i"), n(0))))), lambda a: prim("unwrap_or", prim("some", a[0]), a[1]), lambda a: prim("unwrap_or", prim("none"), a[1]),
             lambda a: callc("fc", [], a[0], a[1]), lambda a: if_(prim("==", a[0], a[1]), block(P(5)), block(P(6))),
             lambda a: prim("dot", vec4(a[0], n(1), n(1), n(1)), vec4(a[1], n(1), n(1), n(1))),
             lambda a: for_(decl("i", a[0]), prim("<", var("i"), a[1]), asg("+=", "i", [], a[2]), block(probe(var("i"))))]
    for mk in forms:
        for failing in (None, 0, 1, 2):
            a = [P(0), P(1), P(1)]
            if failing is not None: a[failing] = prim("boom", prim("pr", n(failing + 10)))
            e = mk(a)
            void = e["k"] in ("asg",) or (e["k"] == "prim" and e["op"] in ("swap", "insert")) or e["k"] == "for"
            pre = [decl("z", arr(n(1), n(2), n(3))), decl("zz", arr(arr(n(1), n(2)), arr(n(3), n(4)))),
                   decl("fc", clos(["p", "q"], prim("+", prim("pr", prim("clone", var("p"))), prim("clone", var("q")))))]
            cases.append(([f3], pre + [decl("r", try_(block(e, n(1)) if void else e)), probe(var("r")), probe(var("z")), probe(var("zz"))]))
    # the left operand is a variable that the right operand changes
    inc = Fn("inc", ["p"], block(asg("+=", "p", [], n(10)), ret(prim("clone", var("p")))), muts=["p"])
    inca = Fn("inca", ["p"], block(asg("+=", "p", [I(0)], n(10)), ret(prim("clone", item("p", [I(0)])))), muts=["p"])
    for op in ("+", "-", "*", "<", "=="):
        for l, r_ in ((var("x"), call("inc", var("x"))), (call("inc", var("x")), var("x")), (item("a", [I(0)]), call("inca", var("a"))), (call("inca", var("a")), item("a", [I(0)]))):
            cases.append(([inc, inca], [decl("x", n(1)), decl("a", arr(n(1))), decl("r", prim(op, l, r_)), probe(var("r")), probe(var("x")), probe(var("a"))]))
    for e in (arr(var("x"), call("inc", var("x")), var("x")), obj(("k", var("x")), ("m", call("inc", var("x")))), call("f3", var("x"), call("inc", var("x")), var("x")),
              vec4(var("x"), call("inc", var("x")), var("x"), n(0)), link(var("x"), call("inc", var("x")), var("x")), fill(var("x"), call("inc", var("x")))):
        cases.append(([inc, inca, f3], [decl("x", n(1)), decl("r", e), probe(var("r")), probe(var("x"))]))
    cases.append(([inc], [decl("x", n(1)), decl("a", arr(n(5), n(6))), asg("+=", "x", [], call("inc", var("x"))), probe(var("x")), asg("-=", "x", [], prim("*", var("x"), n(2))), probe(var("x"))]))
    # short circuit
    for op in ("and", "or"):
        for l in (True, False):
            for r_ in (b(True), b(False), prim("boom", n(1)), prim("dynv", n(3))):
                cases.append([decl("r", try_(prim(op, prim("pr", b(l)), prim("pr", r_)))), probe(var("r"))])
                cases.append([decl("r", try_(prim(op, prim(op, prim("pr", b(not l)), prim("pr", b(l))), prim("pr", r_)))), probe(var("r"))])
    return cases

# ------------------------------------------------------------------ library
def stdlib():
    cases = []
    arrs = [arr(), arr(n(1)), arr(n(1), n(2)), arr(n(3), n(1), n(2)), arr(n(2), n(2), n(1), n(5)), arr(s("x"), n(1), b(True)), arr(arr(n(1)), arr())]
    idx = [0, 1, 2, 3, 5]
    for a in arrs:
        for op in ("pop", "reverse", "clear"):
            e = prim(op, var("a"))
            st = [decl("a", a), decl("r", try_(e if op == "pop" else block(e, n(1)))), probe(var("r")), probe(var("a"))]
            cases.append(st)
        for i in idx:
            cases.append([decl("a", a), decl("r", try_(prim("remove", var("a"), n(i)))), probe(var("r")), probe(var("a"))])
            cases.append([decl("a", a), decl("r", try_(block(prim("insert", var("a"), n(i), s("new")), n(1)))), probe(var("r")), probe(var("a"))])
            cases.append([decl("w", arr(n(9))), decl("a", a), decl("r", try_(block(prim("insert_ref", var("a"), n(i), var("w")), n(1)))), probe(var("r")), asg("=", "w", [I(0)], n(8)), probe(var("a"))])
            cases.append([decl("w", arr(n(9))), decl("a", a), decl("r", try_(block(prim("insert", var("a"), n(i), var("w")), n(1)))), probe(var("r")), asg("=", "w", [I(0)], n(8)), probe(var("a"))])
            cases.append([decl("a", a), decl("r", try_(item("a", [E(prim("+", n(i), n(0)))]))), probe(var("r"))])
            for k in idx:
                cases.append([decl("a", a), decl("r", try_(block(prim("swap", var("a"), n(i), n(k)), n(1)))), probe(var("r")), probe(var("a"))])
        cases.append([decl("a", a), probe(prim("len", var("a"))), prim("push", var("a"), n(1)), probe(prim("len", var("a"))), probe(var("a")),
                      decl("r1", try_(prim("min", var("a")))), probe(var("r1")), decl("r2", try_(prim("max", var("a")))), probe(var("r2"))])
    # references to arrays inside of other things
    for op in ("push", "push_ref"):
        cases.append([decl("x", arr(n(1))), decl("a", arr()), prim(op, var("a"), var("x")), asg("=", "x", [I(0)], n(5)), probe(var("a")),
                      decl("p", prim("pop", var("a"))), asg("=", "x", [I(0)], n(6)), probe(var("p"))])
        cases.append([decl("x", n(1)), decl("a", arr()), prim(op, var("a"), var("x")), asg("=", "x", [], n(5)), probe(var("a")), asg("+=", "a", [I(0)], n(1)), probe(arr(var("x"), var("a")))])
    objs = [obj(), obj(("a", n(1))), obj(("a", n(1)), ("b", arr(n(2)))), obj(("a b", n(1)))]
    for o in objs:
        for k in ("a", "b", "a b", "", "zz"):
            cases.append([decl("o", o), probe(prim("has", var("o"), s(k))), decl("r", try_(item("o", [E(prim("+", s(k), s("")))]))), probe(var("r")),
                          asg(":=", "o", [K("n")], s("new")), probe(var("o")), asg(":=", "o", [E(prim("+", s(k), s("")))], n(3)), probe(var("o")), probe(prim("has", var("o"), s(k)))])
        cases.append([decl("o", o), decl("r", try_(prim("keys", var("o")))), probe(var("r"))])
    strs = ["", " ", "a", " a", "a ", "  ab c  ", "12", "-7", " 42 ", "x1", "007", "zZ", "q\"q", "a\\b"]
    for x in strs:
        st = [decl("x", s(x))]
        for op in ("trim", "trim_left", "trim_right", "parse_number", "chars", "str", "typeof"):
            if op == "parse_number" and any(c in x for c in "\""): continue
            st += [decl("r", try_(prim(op, var("x")))), probe(var("r"))]
        for y in strs:
            st += [probe(prim("+", var("x"), s(y))), probe(prim("==", var("x"), s(y))), probe(prim("!=", var("x"), s(y)))]
            if not any(c in x + y for c in "\"\\"):
                st += [probe(prim("<", var("x"), s(y))), probe(prim("<=", var("x"), s(y))), probe(prim(">", var("x"), s(y))), probe(prim(">=", var("x"), s(y)))]
        cases.append(st)
    vals = [n(1), n(-23), b(True), s("x"), arr(), arr(n(1), s("q"), arr(b(False))), obj(("k", n(1))), obj(("k v", arr(n(1)))), obj(), prim("none"), prim("some", n(2)), prim("some", s("t")),
            prim("ok", arr(n(1))), prim("err", s("e")), link(n(1), s("a"), b(True)), link(), arr(link(n(1), n(2))), prim("some", prim("none")), n(1000000), arr(prim("some", n(1)), obj(("z", n(4))))]
    for v in vals:
        cases.append([decl("x", v), probe(prim("str", var("x"))), probe(prim("typeof", var("x"))), decl("y", arr(var("x"))), probe(prim("str", var("y"))), probe(prim("clone", var("y")))])
    for k in (0, 1, 4, 9, 16, 100, -1, -4, 2):
        cases.append([decl("x", n(k)), probe(prim("abs", var("x"))), probe(prim("floor", var("x"))), decl("r", try_(prim("sqrt", prim("*", var("x"), var("x"))))), probe(var("r")), probe(prim("is_nan", var("x")))])
    cases.append([decl("x", prim("min", arr())), probe(prim("is_nan", var("x"))), probe(var("x"))])
    # wrong kinds of arguments
    bad = [n(1), s("x"), b(True), prim("none"), arr(n(1)), obj(("k", n(1))), link(n(1))]
    for op in ("len", "min", "max", "abs", "floor", "sqrt", "is_nan", "keys", "chars", "trim", "trim_left", "trim_right", "parse_number", "head", "tip", "tail", "neck", "is_empty", "unwrap", "is_ok", "is_err", "unwrap_err", "x", "y", "z", "w"):
        st = []
        for v in bad:
            st += [decl("v", prim("dynv", v)), decl("r", try_(prim(op, prim("dynv", var("v"))))), probe(var("r"))]
        cases.append(st)
    return cases

def lib_refs():
    """What the library does with values that refer to a variable, before and after that variable changes."""
    out = []
    X = lambda: var("x")
    for xv, chg in ((n(7), asg("=", "x", [], n(8))), (arr(n(7)), asg("=", "x", [I(0)], n(8))), (obj(("k", n(7))), asg("=", "x", [K("k")], n(8))), (arr(n(7)), prim("push", var("x"), n(8)))):
        for box in (lambda: X(), lambda: arr(X()), lambda: arr(n(1), X()), lambda: obj(("q", X())), lambda: prim("some", X()), lambda: prim("ok", X()), lambda: prim("err", X()),
                    lambda: arr(arr(X())), lambda: arr(obj(("q", X()))), lambda: obj(("q", arr(X()))), lambda: prim("some", arr(X())), lambda: arr(prim("some", X()))):
            for direct in (False, True):
                v = box() if direct else var("y")
                pre = [decl("x", xv)] + ([] if direct else [decl("y", box())])
                post = [copy.deepcopy(chg), probe(var("r")), probe(var("x"))] + ([] if direct else [probe(var("y"))])
                ops = [[decl("r", prim("clone", v))], [decl("r", prim("some", v))], [decl("r", prim("ok", v))], [decl("r", prim("err", v))], [decl("r", prim("str", v))], [decl("r", arr(v, v))], [decl("r", obj(("z", v)))], [decl("r", fill(v, n(2)))],
                       [decl("r", arr()), prim("push", var("r"), v)], [decl("r", arr(n(1), n(2))), prim("insert", var("r"), n(1), v)], [decl("r", arr(n(1), n(2))), asg("=", "r", [I(1)], prim("clone", v))], [decl("r", obj()), asg(":=", "r", [K("z")], prim("clone", v))],
                       [decl("r", arr(n(1))), asg("=", "r", [I(0)], v)], [decl("r", n(0)), asg("=", "r", [], v)], [decl("r", n(0)), asg("=", "r", [], prim("clone", v))],
                       [decl("r", prim("dynv", v))], [decl("r", prim("unwrap_or", prim("none"), v))], [decl("r", prim("unwrap_or", prim("some", v), n(0)))], [decl("r", prim("unwrap", prim("some", v)))], [decl("r", prim("unwrap", prim("ok", v)))], [decl("r", prim("unwrap_err", prim("err", v)))],
                       [decl("w", arr(v)), decl("r", prim("pop", var("w")))], [decl("w", arr(v, n(1))), decl("r", prim("remove", var("w"), n(0)))], [decl("r", arr(v, n(1), n(2))), prim("reverse", var("r"))], [decl("r", arr(v, n(1), n(2))), prim("swap", var("r"), n(0), n(2))],
                       [decl("r", forn("sift", "i", None, n(2), block(prim("clone", v))))], [decl("r", if_(prim("dynv", b(True)), block(prim("clone", v)), block(n(0))))], [decl("r", try_(prim("clone", v)))]]
                if not direct:
                    ops += [[decl("r", n(0)), prim("push_ref", var("y"), var("x"))], [decl("r", arr()), prim("push_ref", var("r"), var("y"))], [decl("r", arr(n(1))), prim("insert_ref", var("r"), n(0), var("y"))], [decl("r", arr(n(1))), prim("insert_ref", var("r"), n(1), var("y"))]]
                for o in ops:
                    out.append(copy.deepcopy(pre + [decl("r", n(0))][:0] + o + post))
    return out

LAWS = """sin(0) == 0; sin(tau() / 4) == 1; cos(0) == 1; cos(tau() / 2) == -1; tan(0) == 0; asin(0) == 0; asin(1) == tau() / 4; acos(1) == 0; acos(-1) == tau() / 2; atan(0) == 0
atan(1) == tau() / 8; atan(-1) == -tau() / 8; atan2(1, 0) == tau() / 4; atan2(0, 1) == 0; atan2(0, -1) == tau() / 2; atan2(-1, 0) == -tau() / 4; exp(0) == 1; ln(1) == 0; ln(exp(1)) == 1
log2(1) == 0; log2(8) == 3; log2(0.25) == -2; log10(1) == 0; log10(1000) == 3; sqrt(0.25) == 0.5; abs(-0.5) == 0.5; 4 ^ 0.5 == 2; 2 ^ -2 == 0.25; 7.5 % 2 == 1.5; -7.5 % 2 == -1.5; 1 / 4 == 0.25
tan(tau() / 8) > 0.999; tan(tau() / 8) < 1.001; exp(1) > 2.718; exp(1) < 2.719; tau() > 6.283; tau() < 6.284; sin(1) > 0.841; sin(1) < 0.842; cos(1) > 0.540; cos(1) < 0.541; random() >= 0; random() < 1
dir(angle: 0) == (1, 0); |dir(angle: tau() / 4) - (0, 1)| < 0.00001; |dir(angle: tau() / 2) - (-1, 0)| < 0.00001; round(2.5) == 3; round(-2.5) == -3; round(0.4) == 0; floor(-0.5) == -1; ceil(-0.5) == 0; ceil(0.2) == 1
is_nan(0 / 0); !is_nan(1 / 0); is_nan(sqrt(-1)); is_nan(ln(-1)); parse_number("0.5") == some(0.5); parse_number("-0.25") == some(-0.25); parse_number("1e3") == some(1000); str(0.5) == "0.5"; str(-0.25) == "-0.25"; str(1 / 4) == "0.25"
min([0.5, 0.25, 0.75]) == 0.25; max([0.25, -0.25, 0.5]) == 0.5; 0.25 < 0.5; 0.5 > 0.25; 0.5 <= 0.5; 0.5 >= 0.5; 0.5 != 0.25; 0.5 + 0.25 == 3 / 4; 0.5 * 0.5 == 0.25; 0.25 - 0.5 == -1 / 4"""
VLAWS = """|inv(mov((1, 2, 3))) * (1, 2, 3, 1) - mov((-1, -2, -3)) * (1, 2, 3, 1)| < 0.0001; |inv(scale((2, 4, 1))) * (1, 2, 3, 1) - scale((0.5, 0.25, 1)) * (1, 2, 3, 1)| < 0.0001; |inv(mov((1, 2, 3)) * scale((2, 4, 1))) * (1, 2, 3, 1) - scale((0.5, 0.25, 1)) * mov((-1, -2, -3)) * (1, 2, 3, 1)| < 0.0001; |inv(scale((1, 1, 1))) * (1, 2, 3, 1) - scale((1, 1, 1)) * (1, 2, 3, 1)| < 0.0001
|rot(axis: (0, 0, 1), angle: 1) * (0, 0, 5) - (0, 0, 5)| < 0.0001; |rot(axis: (0, 1, 0), angle: 1) * (0, 7, 0) - (0, 7, 0)| < 0.0001; |rot(axis: (1, 0, 0), angle: 1) * (3, 0, 0) - (3, 0, 0)| < 0.0001
|rot(axis: (0, 0, 1), angle: 0.5) * (rot(axis: (0, 0, 1), angle: 0.25) * (3, 4, 5)) - rot(axis: (0, 0, 1), angle: 0.75) * (3, 4, 5)| < 0.0001; abs(|rot(axis: (0, 0.6, 0.8), angle: 2) * (3, 4, 0)| - 5) < 0.0001
|rot(axis: (0, 0, 1), angle: tau() / 4) * (1, 0, 0) - (0, -1, 0)| < 0.0001; |rot(axis: (1, 0, 0), angle: tau() / 4) * (0, 1, 0) - (0, 0, -1)| < 0.0001; |rot(axis: (0, 1, 0), angle: tau() / 4) * (0, 0, 1) - (-1, 0, 0)| < 0.0001
|rot(axis: (0, 0, 1), angle: 0) * (1, 2, 3, 1) - scale((1, 1, 1)) * (1, 2, 3, 1)| < 0.0001; |rot(axis: (0, 1, 0), angle: 0) * (1, 2, 3, 1) - scale((1, 1, 1)) * (1, 2, 3, 1)| < 0.0001; |rot(axis: (0, 0, 1), angle: tau()) * (1, 2, 3) - (1, 2, 3)| < 0.0001; |(0.5, 0) * 2 - (1, 0)| == 0; (0.5, 0.25) == (0.5, 0.25); (0.5, 0.25) != (0.25, 0.5)
(0.5, 1) + (0.25, 2) == (0.75, 3); (0.5, 1) - (0.25, 2) == (0.25, -1); (1, 2) / 4 == (0.25, 0.5); 1 / (2, 4, 8, 16) == (0.5, 0.25, 0.125, 0.0625); (2, 4) ^ 2 == (4, 16, 0, 0); |(3, 4)| == 5; (3, 4) / |(3, 4)| == (3, 4) / 5
srgb_to_linear(color: (0, 0, 0, 0.5)) == (0, 0, 0, 0.5); |srgb_to_linear(color: (1, 1, 1)) - (1, 1, 1)| < 0.0001; |linear_to_srgb(color: (1, 1, 1)) - (1, 1, 1)| < 0.0001; |linear_to_srgb(color: srgb_to_linear(color: (0.2, 0.01, 0.8, 0.3))) - (0.2, 0.01, 0.8, 0.3)| < 0.0001
|srgb_to_linear(color: linear_to_srgb(color: (0.2, 0.001, 0.8, 0.3))) - (0.2, 0.001, 0.8, 0.3)| < 0.0001; |srgb_to_linear(color: (0.5, 0.5, 0.5)) - (0.214041, 0.214041, 0.214041)| < 0.0001
|proj(fov: 0.25, near: 1, far: 3, ar: 2) * (0, 0, -1, 1) - (0, 0, -1, 1)| < 0.0001; |proj(fov: 0.25, near: 1, far: 3, ar: 2) * (0, 0, -3, 1) - (0, 0, 3, 3)| < 0.0001; |proj(fov: 0.25, near: 1, far: 3, ar: 2) * (2, 1, -1, 1) - (1, 1, -1, 1)| < 0.0001"""
def split_laws(t):
    import re
    out = []
    for x in t.replace("\n", ";").split(";"):
        m = re.match(r"^(.*) (==|!=|<|<=|>|>=) ([^|]*)$", x.strip())
        out.append([probe(law("(%s) %s %s" % m.groups() if m and m.group(1)[0] != "|" else x.strip()))])
    return out
def laws():
    keys = """{
        o := {a: 1, b: 2, c: 4, "d e": 8}
        k := keys(o)
        %s
    }"""
    return split_laws(LAWS) + [[probe(law(keys % x))] for x in ("(sum i len(k) { o[k[i]] }) == 15", "len(k) == 4", "true == (any i len(k) { k[i] == \"d e\" })", "true == (all i len(k) { has(o, k[i]) })")]
def vlaws(): return split_laws(VLAWS)
def numbers():
    cases = []
    for k in list(range(-13, 14)) + [100, -100, 1001]:
        cases.append([decl("x", n(k))] + [probe(prim(op, var("x"))) for op in ("floor2", "ceil2", "round2", "floor4", "ceil4", "round4", "floor", "ceil", "round", "abs")])
    bad = [s("x"), b(True), prim("none"), arr(n(1)), obj(("k", n(1))), link(n(1)), vecn(n(3), n(4))]
    for op in ("ceil", "round", "floor", "norm"):
        st = []
        for v in bad: st += [decl("v", prim("dynv", v)), decl("r", try_(prim(op, prim("dynv", var("v"))))), probe(var("r"))]
        cases.append(st)
    return cases
def frames():
    """matrices made of vectors and matrices"""
    import random
    r, cases = random.Random(5), []
    v3 = lambda: vecn(*[n(r.randint(-4, 4)) for _ in range(3)])
    m4 = lambda: r.choice([lambda: prim("mov", v3()), lambda: prim("scale", v3()), lambda: mat4(*[vec4(*[n(r.randint(-3, 3)) for _ in range(4)]) for _ in range(4)])])()
    for _ in range(40):
        cases.append([decl("m", prim("ortho", v3(), v3(), v3(), v3())), probe(var("m")), probe(prim("*", var("m"), vec4(*[n(r.randint(-3, 3)) for _ in range(4)]))),
                      decl("q", prim("mvp", m4(), m4(), m4())), probe(var("q")), probe(prim("mvp", var("q"), var("m"), m4()))])
    for bad in (n(1), s("x"), vecn(n(1), n(2))):
        for at in range(3):
            a = [m4(), m4(), m4()]; a[at] = prim("dynv", bad)
            cases.append([decl("r", try_(prim("mvp", *a))), probe(var("r"))])
    for bad in (n(1), s("x"), m4()):
        for at in range(4):
            a = [v3(), v3(), v3(), v3()]; a[at] = prim("dynv", bad)
            cases.append([decl("r", try_(prim("ortho", *a))), probe(var("r"))])
    return cases

# ------------------------------------------------------------------ links
def links():
    cases = []
    def seq(k, f=0): return link(*[n(i + f) for i in range(k)])
    big = lambda k, f=0: forn("link", "i", n(f), n(f + k), None, a=[prim("+", var("i"), n(0))])
    L = [link(), link(n(1)), link(n(1), s("a")), link(link(n(1), n(2)), n(3)), link(link(), link(s("x"))), seq(4)]
    for x, y in itertools.product(L, repeat=2):
        cases.append([decl("x", x), decl("y", y), decl("z", prim("+", var("x"), var("y"))), probe(var("z")), asg("+=", "x", [], var("y")), probe(var("x")),
                      asg("-=", "y", [], var("z")), probe(var("y")), probe(prim("tail", var("z"))), probe(prim("neck", var("z"))), probe(prim("head", var("z"))), probe(prim("tip", var("z"))),
                      probe(prim("is_empty", var("z"))), probe(prim("tail", prim("neck", var("z")))), probe(prim("neck", prim("tail", var("z"))))])
    # sizes around the size of a block inside of a link
    sizes = [0, 1, 2, 123, 124, 125, 126, 127, 128, 129, 247, 248, 249, 250, 255, 256, 257, 372, 380]
    obs = lambda v: [probe(v), probe(prim("head", v)), probe(prim("tip", v)), probe(prim("is_empty", v))]
    for k in sizes:
        cases.append([decl("x", big(k))] + obs(var("x")) + [decl("y", prim("tail", var("x")))] + obs(var("y")) + [decl("z", prim("neck", var("x")))] + obs(var("z"))
                     + [decl("u", prim("neck", prim("tail", var("x"))))] + obs(var("u")) + [probe(var("x"))])
        cases.append([decl("x", big(k)), asg("+=", "x", [], n(7)), probe(var("x")), asg("+=", "x", [], link(n(8), n(9))), probe(var("x")), asg("-=", "x", [], link(n(5))), probe(var("x"))])
        cases.append([decl("x", big(k)), asg("-=", "x", [], link(n(5), n(6))), probe(var("x")), decl("y", prim("+", link(n(0)), var("x"))), probe(prim("neck", var("y"))), probe(prim("tail", var("y"))), probe(var("x"))])
    for k1, k2 in itertools.product([0, 1, 2, 123, 124, 125, 126, 248, 250], repeat=2):
        cases.append([decl("x", big(k1)), decl("y", big(k2, 1000)), decl("z", prim("+", var("x"), var("y"))), probe(var("z")), probe(prim("tail", var("z"))), probe(prim("neck", var("z"))),
                      asg("+=", "z", [], s("end")), probe(prim("tip", var("z"))), probe(prim("tail", var("z"))), probe(arr(var("x"), var("y")))])
    # slices of slices, then grown
    for k in (126, 130, 250, 375):
        st = [decl("x", big(k)), decl("y", var("x"))]
        st += [forn("for", "j", None, n(k), block(asg("=", "y", [], prim("tail", var("y"))), if_(prim("==", prim("%", var("j"), n(41)), n(0)), block(probe(var("y"))))))]
        st += [probe(var("y")), asg("+=", "y", [], n(3)), probe(var("y"))]
        cases.append(st)
        st = [decl("x", big(k)), decl("y", var("x"))]
        st += [forn("for", "j", None, n(k), block(asg("=", "y", [], prim("neck", var("y"))), if_(prim("==", prim("%", var("j"), n(41)), n(0)), block(probe(var("y"))))))]
        st += [probe(var("y")), asg("+=", "y", [], n(3)), probe(var("y"))]
        cases.append(st)
        st = [decl("y", big(k)), forn("for", "j", None, n(130), block(asg("=", "y", [], prim("tail", var("y"))), asg("+=", "y", [], prim("+", n(0), var("j"))))), probe(var("y")),
              decl("z", prim("+", prim("tail", var("y")), prim("neck", var("y")))), probe(var("z"))]
        cases.append(st)
    # link loops, with nested links, jumps and nothing in some iterations
    for k in range(4):
        cases.append([decl("x", forn("link", "i", None, n(k), None, a=[prim("+", var("i"), n(0)), link(s("a"), s("b")), s(",")])), probe(var("x")),
                      decl("y", forn("link", "i", None, n(k), None, a=[if_(prim("==", prim("%", var("i"), n(2)), n(0)), block(s("e")), block(s("o")))])), probe(var("y")), probe(prim("str", var("y")))])
    for x in (n(1), s("a"), b(True), b(False), arr(n(1)), prim("none"), obj(), vec4(n(1), n(2), n(3), n(4))):
        cases.append([decl("v", prim("dynv", x)), decl("r", try_(link(n(1), var("v")))), probe(var("r")), decl("l", link(n(0))), decl("r2", try_(block(asg("+=", "l", [], var("v")), n(1)))), probe(prim("is_ok", var("r2"))), probe(var("l"))])
    return cases

def link_ops(depth, sample=None, rng=None):
    """All sequences of operations on three links that share parts."""
    v = var
    A = lambda x, e: asg("=", x, [], e)
    ops = [[A("a", prim("tail", v("a")))], [A("a", prim("neck", v("a")))], [A("b", prim("tail", v("a")))], [A("b", prim("neck", v("b")))], [A("c", prim("+", v("a"), v("b")))], [A("a", prim("+", v("b"), v("a")))],
           [A("b", prim("+", v("c"), prim("neck", v("c"))))], [asg("+=", "a", [], n(8))], [asg("+=", "b", [], s("s"))], [asg("-=", "c", [], v("a"))], [asg("+=", "c", [], v("b"))], [A("b", prim("clone", v("c")))],
           [A("c", link(v("a"), b(True), v("c")))], [A("c", prim("tail", prim("neck", v("c"))))]]
    obs = [probe(arr(v("a"), v("b"), v("c"))), probe(arr(prim("head", v("a")), prim("tip", v("a")), prim("is_empty", v("b")), prim("tip", v("c"))))]
    seqs = list(itertools.product(range(len(ops)), repeat=depth))
    if sample and len(seqs) > sample: seqs = rng.sample(seqs, sample)
    cases = []
    for sq in seqs:
        st = [decl("a", link(n(1), n(2), s("x"))), decl("b", prim("neck", v("a"))), decl("c", prim("tail", v("a")))]
        for o in sq: st += ops[o]
        cases.append(st + obs)
    return cases

# ------------------------------------------------------------------ closures
def gr(i, e, level=1):
    d = grab(i, level); d["_expr"] = e
    return d
def closures():
    """`grab` in every place an expression can stand, with calls after what was grabbed has changed."""
    cases = []
    ad = Fn("ad", ["p", "q"], block(ret(prim("-", var("p"), var("q")))))
    vo = Fn("vo", ["p"], block(probe(prim("clone", var("p")))), rets=False)
    lzf = Fn("lzf", ["p", "q"], block(ret(prim("+", prim("clone", var("p")), prim("clone", var("q"))))), lz=[[["n", 5]], []])
    g = gr(1, var("a"))                     # a number that is 1, then 2 when called
    G1 = [(1, var("a"))]
    K = lambda v: prim("clone", v)
    x = lambda: prim("clone", var("x"))
    ctx = [
        g, prim("+", x(), g), prim("+", g, x()), prim("neg", g), prim("not", prim("==", g, n(1))), arr(x(), g), obj(("k", g), ("m", x())),
        fill(g, n(2)), fill(n(7), g), vec4(g, n(0), x(), g), link(s("k"), g), call("ad", g, x()), call("ad", x(), g), call("lzf", g, n(3)), call("lzf", n(5), g), call("lzf", n(4), g),
        block(call("vo", g), n(3)), prim("max", arr(g, n(0))), prim("and", prim("==", g, n(1)), b(True)), prim("or", b(False), prim("==", g, n(2))),
        if_(prim("==", g, n(1)), block(n(10)), block(n(20))), if_(prim("==", x(), n(9)), block(K(g)), block(n(20))), if_(prim("==", x(), n(8)), block(n(1)), block(K(g))),
        if_(prim("==", x(), n(8)), block(n(1)), if_(prim("==", g, n(1)), block(n(5)), block(n(6)))), if_(prim("==", x(), n(8)), block(n(1)), if_(b(True), block(K(g)), block(n(6)))),
        block(decl("z", g), asg("+=", "z", [], n(1)), K(var("z"))), block(decl("z", arr(n(5), n(6), n(7))), K(item("z", [E(g)]))),
        block(decl("z", arr(n(5), n(6), n(7))), asg("=", "z", [E(g)], n(0)), K(var("z"))), block(decl("z", arr(n(5), n(6))), asg("=", "z", [I(0)], g), K(var("z"))),
        forn("sum", "i", None, g, block(n(3))), forn("sum", "i", g, n(5), block(prim("+", var("i"), n(0)))), forn("sum", "i", None, n(3), block(K(g))), forn("prod", "i", None, n(3), block(prim("+", g, n(1)))),
        prim("dynv", forn("min", "i", None, n(3), block(prim("-", g, var("i"))))), prim("dynv", forn("max", "i", None, n(3), block(prim("-", g, var("i"))))),
        prim("dynv", forn("any", "i", None, n(3), block(prim("==", g, var("i"))))), prim("dynv", forn("all", "i", None, n(3), block(prim("==", g, var("i"))))),
        forn("sift", "i", None, n(3), block(prim("+", g, var("i")))), forn("link", "i", None, n(2), None, a=[g, s(",")]),
        block(decl("z", n(0)), forn("for", "i", None, n(3), block(asg("+=", "z", [], g))), K(var("z"))),
        block(decl("z", n(0)), for_(decl("i", g), prim("<", var("i"), n(4)), asg("+=", "i", [], n(1)), block(asg("+=", "z", [], n(1)))), K(var("z"))),
        block(decl("z", n(0)), for_(decl("i", n(0)), prim("<", var("i"), g), asg("+=", "i", [], n(1)), block(asg("+=", "z", [], n(1)))), K(var("z"))),
        block(decl("z", n(0)), for_(decl("i", n(0)), prim("<", var("i"), n(6)), asg("+=", "i", [], g), block(asg("+=", "z", [], n(1)))), K(var("z"))),
        block(decl("z", n(0)), for_(decl("i", n(0)), prim("<", var("i"), n(3)), asg("+=", "i", [], n(1)), block(asg("+=", "z", [], g))), K(var("z"))),
        forn("sumv", "i", None, n(2), block(vec4(g, n(1), n(0), n(0)))), forn("prodv", "i", None, n(2), block(vec4(prim("+", g, n(1)), n(1), n(0), n(0)))),
        prim("x", vec4(g, n(0), n(0), n(0))), try_(prim("+", g, n(0))), try_(prim("boom", g)), prim("some", g), prim("unwrap_or", prim("none"), g), prim("unwrap_or", prim("some", g), n(0)),
        block(decl("h", clos(["y"], prim("+", K(var("y")), n(1)))), callc("h", [], g)), block(decl("h", arr(clos([], n(3)), clos([], n(4)))), decl("w", g), callc("h", [I(0)])),
        block(if_(prim("==", x(), n(9)), block(ret(K(g)))), n(0)),
        prim("dynv", prim("explain_where", g, n(3))), mat4(vec4(g, n(0), n(0), n(0)), vec4(n(0), n(1), n(0), n(0)), vec4(n(0), n(0), n(1), n(0)), vec4(n(0), n(0), n(0), n(1))),
    ]
    fx = [ad, vo, lzf]
    for e in ctx:
        cases.append((fx, [decl("a", n(1)), decl("f", clos(["x"], e, grabs=G1)), asg("=", "a", [], n(2)), decl("r", callc("f", [], n(9))), probe(var("r")), decl("r", callc("f", [], n(8))), probe(var("r"))]))
    # what is grabbed: anything; evaluated once, when the closure is made
    what = [(n(4),), (var("c"),), (item("c", [I(0)]),), (item("o", [Kf("k")]),), (arr(var("a"), var("c")),), (prim("pr", prim("clone", var("a"))),), (call("ad", var("a"), n(5)),), (prim("+", var("a"), n(1)),),
            (forn("sum", "i", None, n(3), block(prim("pr", prim("+", var("i"), var("a"))))),), (if_(prim("==", var("a"), n(1)), block(n(70)), block(n(80))),), (prim("some", var("c")),), (obj(("z", var("c"))),), (var("h"),)]
    for (w,) in what:
        last = callc("g", [], n(1)) if w.get("x") == "h" else prim("clone", var("g"))
        cases.append((fx, [decl("a", n(1)), decl("c", arr(var("a"), n(3))), decl("o", obj(("k", var("c")))), decl("h", clos(["y"], prim("+", K(var("y")), n(40)))),
                           decl("f", clos([], block(decl("g", gr(1, w)), last), grabs=[(1, w)])),
                           asg("=", "a", [], n(2)), asg("=", "c", [I(1)], n(8)), asg("=", "o", [Kf("k")], arr()), asg("=", "h", [], clos(["y"], n(0))),
                           decl("r", callc("f", [])), probe(var("r")), decl("r", callc("f", [])), probe(var("r"))]))
        # changing what was grabbed does not reach the next call
        if w.get("x") != "h":
            cases.append((fx, [decl("a", n(1)), decl("c", arr(var("a"), n(3))), decl("o", obj(("k", var("c")))),
                               decl("f", clos([], block(decl("g", arr(gr(1, w))), prim("push", var("g"), n(6)), prim("clone", var("g"))), grabs=[(1, w)])),
                               decl("r", callc("f", [])), probe(var("r")), prim("push", var("r"), n(0)), decl("r2", callc("f", [])), probe(var("r2")), probe(var("c"))]))
    # levels: closures that make closures that make closures
    for l1, l2, l3 in itertools.product((1, 2, 3), repeat=3):
        # three levels; variable names differ per level: a (main), x (outer arg), y (middle arg)
        def ga(i, lv):
            # a grab in the innermost closure that reaches lv levels out
            return gr(i, {1: var("y"), 2: var("x"), 3: var("a")}[lv], lv)
        inner_e = arr(prim("clone", var("z")), ga(1, l1), ga(2, l2), ga(3, l3))
        at = {1: [], 2: [], 3: []}
        for i, lv in ((1, l1), (2, l2), (3, l3)):
            at[lv].append((i, {1: var("y"), 2: var("x"), 3: var("a")}[lv]))
        c3 = clos(["z"], inner_e, grabs=at[1])
        c2 = clos(["y"], c3, grabs=at[2])
        c1 = clos(["x"], c2, grabs=at[3])
        cases.append([decl("a", n(1)), decl("f", c1), asg("=", "a", [], n(2)), decl("x", n(90)), decl("y", n(91)), decl("g", callc("f", [], n(10))), decl("h", callc("g", [], n(20))),
                      decl("h2", callc("g", [], n(21))), decl("g2", callc("f", [], n(11))), decl("h3", callc("g2", [], n(22))),
                      probe(callc("h", [], n(30))), probe(callc("h2", [], n(31))), probe(callc("h3", [], n(32))), probe(callc("h", [], n(33)))])
    # closures in arrays and objects, passed to functions, returned, made in loops, calling functions and themselves through an argument
    ap = Fn("ap", ["f", "p"], block(ret(callc("f", [], var("p")))), tys={"f": "\\(any) -> any"})
    tw = Fn("tw", ["f", "p"], block(decl("q", callc("f", [], var("p"))), ret(callc("f", [], var("q")))), tys={"f": "\\(any) -> any"})
    mk = Fn("mk", ["p"], block(ret(clos(["x"], prim("+", call("ad", x(), n(0)), gr(1, var("p"))), grabs=[(1, var("p"))]))), rty="\\(any) -> any")
    fx = [ad, ap, tw, mk]
    inc = clos(["x"], prim("+", x(), n(1)))
    cases += [(fx, st) for st in [
        [decl("f", inc), probe(call("ap", var("f"), n(3))), probe(call("tw", var("f"), n(3))), probe(call("ap", inc, n(5)))],
        [decl("f", call("mk", n(5))), decl("g", call("mk", n(7))), probe(callc("f", [], n(1))), probe(callc("g", [], n(1))), probe(call("tw", var("g"), n(0)))],
        [decl("f", arr(call("mk", n(5)), call("mk", n(6)))), probe(callc("f", [I(0)], n(1))), probe(callc("f", [I(1)], n(1)))],
        [decl("f", obj(("k", call("mk", n(5))), ("m", inc))), probe(callc("f", [Kf("k")], n(1))), probe(callc("f", [Kf("m")], n(1)))],
        [decl("f", forn("sift", "i", None, n(4), block(clos(["x"], prim("*", x(), gr(1, var("i"))), grabs=[(1, var("i"))])))), probe(callc("f", [I(0)], n(3))), probe(callc("f", [I(3)], n(3))), probe(callc("f", [I(2)], n(5)))],
        [decl("fs", arr()), forn("for", "i", None, n(3), block(prim("push", var("fs"), clos([], prim("+", gr(1, var("i")), n(0)), grabs=[(1, var("i"))])))), probe(callc("fs", [I(0)])), probe(callc("fs", [I(2)]))],
        [decl("f", inc), decl("g", clos(["x"], block(decl("f", gr(1, var("f"))), decl("q", callc("f", [], var("x"))), callc("f", [], var("q"))), grabs=[(1, var("f"))])), asg("=", "f", [], clos(["x"], n(0))), probe(callc("g", [], n(1))), probe(callc("f", [], n(1)))],
        [decl("fac", clos(["me", "k"], if_(prim("<", var("k"), n(2)), block(n(1)), block(prim("*", prim("clone", var("k")), callc("me", [], var("me"), prim("-", var("k"), n(1)))))))), probe(callc("fac", [], var("fac"), n(5)))],
        [decl("r", try_(callc("nof", []))), probe(var("r"))] if False else [decl("f", inc), decl("r", try_(call("ap", var("f"), s("x")))), probe(var("r"))],
        [decl("f", prim("dynv", inc)), decl("r", try_(callc("f", []))), probe(var("r")), decl("r", try_(callc("f", [], n(1), n(2)))), probe(var("r")), decl("f", prim("dynv", n(3))), decl("r", try_(callc("f", [], n(1)))), probe(var("r"))],
        [decl("a", arr(n(1))), decl("f", clos(["p"], block(prim("pr", prim("clone", item("p", [I(0)])))))), probe(callc("f", [], var("a"))), asg("=", "a", [I(0)], n(4)), probe(callc("f", [], var("a")))],
    ]]
    # functions that are called from closures, wherever they are declared and from wherever the closure is called
    zz = Fn("zz", ["f"], block(decl("q", n(3)), ret(callc("f", [], var("q")))), tys={"f": "\\(any) -> any"})
    c1 = Fn("c1", ["p"], block(ret(prim("+", var("p"), n(100)))))
    c2 = Fn("c2", ["p"], block(ret(prim("+", call("c1", var("p")), n(200)))))
    mk2 = Fn("mk2", [], block(ret(clos(["x"], call("c2", call("c1", var("x")))))), rty="\\(any) -> any")
    for perm in itertools.permutations([zz, c1, c2, mk2]):
        cases.append((list(perm), [decl("f", call("mk2")), probe(call("zz", var("f"))), probe(callc("f", [], n(1)))]))
    return cases
Kf = K

# ------------------------------------------------------------------ current objects
def currents():
    cases = []
    rd = Fn("rd", [], block(ret(prim("clone", var("c")))), cus=["c"])
    rdi = Fn("rdi", ["p"], block(ret(prim("+", prim("clone", var("p")), prim("clone", var("c"))))), cus=["c"])
    wr = Fn("wr", ["p"], block(asg("=", "c", [], var("p"))), rets=False, cus=["c"], curmut=["c"], lts={"p": "c"} if False else {})
    wr = Fn("wr", ["p"], block(asg("=", "c", [], prim("clone", var("p")))), rets=False, cus=["c"], curmut=["c"])
    up = Fn("up", [], block(asg("+=", "c", [], n(1))), rets=False, cus=["c"], curmut=["c"])
    two = Fn("two", [], block(ret(arr(prim("clone", var("c")), prim("clone", var("d"))))), cus=["c", "d"])
    owt = Fn("owt", [], block(asg("+=", "d", [], var("c")), ret(arr(prim("clone", var("d")), prim("clone", var("c"))))), cus=["d", "c"], curmut=["d"])
    ind = Fn("ind", [], block(decl("c", n(500), cur=True), ret(call("rd"))))                    # shadows for what it calls
    nosh = Fn("nosh", [], block(decl("c", n(600)), ret(call("rd"))))                              # an ordinary variable does not
    deep = Fn("deep", [], block(probe(call("rd")), call("up"), probe(call("rd")), probe(call("ind")), ret(call("rd"))))
    loc = Fn("loc", [], block(decl("q", n(7)), if_(b(True), block(decl("c", n(700), cur=True), probe(call("rd")))), ret(call("rd"))))
    seta = Fn("seta", [], block(asg("=", "a", [I(0)], n(9)), prim("push", var("a"), n(4))), rets=False, cus=["a"], curmut=["a"])
    geta = Fn("geta", [], block(ret(prim("clone", var("a")))), cus=["a"])
    geta0 = Fn("geta0", [], block(ret(prim("clone", item("a", [I(0)])))), cus=["a"])
    seto = Fn("seto", [], block(asg("=", "o", [K("k")], n(5)), asg(":=", "o", [K("new")], n(6))), rets=False, cus=["o"], curmut=["o"])
    geto = Fn("geto", [], block(ret(prim("clone", var("o")))), cus=["o"])
    lam = Fn("lam", ["f"], block(decl("c", n(800), cur=True), ret(callc("f", []))), tys={"f": "\\() -> any"})
    rec = Fn("rec", ["p"], block(decl("c", prim("clone", var("p")), cur=True), if_(prim("<=", var("p"), n(0)), block(ret(call("rd")))), decl("q", call("rec", prim("-", var("p"), n(1)))),
                                 ret(prim("+", prim("*", prim("clone", var("q")), n(10)), call("rd")))))
    fx = [rd, rdi, wr, up, two, owt, ind, nosh, deep, loc, seta, geta, geta0, seto, geto, lam, rec]
    C = lambda v: decl("c", v, cur=True)
    D = lambda v: decl("d", v, cur=True)
    P = lambda: probe(call("rd"))
    ops_ = {
        "rd": [P()], "wr": [call("wr", n(50)), P()], "up": [call("up"), P()], "rdi": [probe(call("rdi", n(1000)))], "ind": [probe(call("ind")), P()], "nosh": [probe(call("nosh"))],
        "deep": [probe(call("deep"))], "loc": [probe(call("loc")), P()], "set": [asg("=", "c", [], n(60))], "inc": [asg("+=", "c", [], n(3)), P()],
        "sh": [decl("c", n(70)), P(), probe(var("c"))], "shc": [C(n(80)), P()], "blk": [if_(b(True), block(C(n(90)), call("up"), P())), P()],
        "loop": [forn("for", "i", None, n(2), block(C(prim("+", n(0), var("i"))), call("up"), P())), P()], "lam": [decl("f", clos([], prim("clone", var("c")), cus=["c"])), probe(callc("f", [])), probe(call("lam", var("f"))), probe(callc("f", []))],
        "rec": [probe(call("rec", n(3))), P()], "try": [decl("r", try_(block(C(n(95)), prim("boom", call("rd"))))), P()], "tryok": [decl("r", try_(block(C(n(95)), call("rd")))), probe(var("r")), P()],
        "lam2": [decl("f", clos(["x"], block(asg("+=", "c", [], prim("clone", var("x"))), prim("clone", var("c"))), cus=["c"])), probe(callc("f", [], n(2))), P()] if False else [P()],
        "brk": [forn("for", "i", None, n(3), block(C(n(96)), if_(prim("==", var("i"), n(1)), block(brk())), P())), P()],
        "cont": [forn("for", "i", None, n(3), block(if_(prim("==", var("i"), n(1)), block(C(n(97)), cont())), P())), P()],
        "acc": [probe(forn("sum", "i", None, n(3), block(C(prim("+", n(0), var("i"))), call("rd")))), P()],
    }
    for a, z in itertools.product(ops_, repeat=2):
        cases.append((fx, [C(n(1))] + ops_[a] + ops_[z] + [P(), probe(var("c"))]))
    more = [
        [C(n(1)), D(n(2)), probe(call("two")), probe(call("owt")), probe(call("two"))], [D(n(2)), C(n(1)), probe(call("two")), probe(call("owt")), probe(call("two"))],
        [C(n(1)), D(var("c")), asg("=", "d", [], n(5)), probe(call("two"))], [C(n(1)), decl("r", try_(call("two"))), probe(var("r"))], [decl("r", try_(call("rd"))), probe(var("r"))],
        [decl("c", n(1)), decl("r", try_(call("rd"))), probe(var("r"))], [if_(b(True), block(C(n(1)), P())), decl("r", try_(call("rd"))), probe(var("r"))],
        [decl("a", arr(n(1), n(2)), cur=True), call("seta"), probe(call("geta")), probe(var("a")), probe(call("geta0"))], [decl("w", arr(n(1))), decl("a", var("w"), cur=True), call("seta"), probe(arr(var("a"), var("w"))), probe(call("geta"))],
        [decl("w", n(1)), decl("a", arr(var("w")), cur=True), call("seta"), probe(var("w")), probe(call("geta"))], [decl("o", obj(("k", n(1))), cur=True), call("seto"), probe(call("geto")), probe(var("o"))],
        [decl("a", arr(n(1), n(2)), cur=True), decl("b", var("a")), call("seta"), probe(arr(var("a"), var("b")))],
    ]
    cases += [(fx, m) for m in more]
    return cases

# ------------------------------------------------------------------ lazy invariants
def lazies():
    cases = []
    lits = [["n", 0], ["n", 1], ["b", True], ["b", False], ["s", ""], ["s", "x"], ["uok"], ["uerr"], ["usome"]]
    args = [n(0), n(1), n(2), b(True), b(False), s(""), s("x"), s("y"), prim("ok", n(1)), prim("ok", arr(n(1))), prim("err", n(1)), prim("some", n(0)), prim("some", s("x")), prim("none"), arr(n(1)),
            prim("dynv", prim("explain_why", b(True), n(4))), prim("dynv", prim("explain_where", n(1), n(5))), prim("ok", prim("some", n(1)))]
    def f2(name, l1, l2):
        return Fn(name, ["p", "q"], block(probe(s("in")), ret(arr(prim("clone", var("p")), prim("clone", var("q"))))), lz=[l1, l2])
    for i, l in enumerate(lits):
        f = f2("lz", [l], [])
        for a in args:
            cases.append(([f], [decl("v", prim("dynv", a)), decl("w", n(3)), decl("r", call("lz", prim("pr", prim("dynv", a)), prim("pr", n(7)))), probe(var("r")), decl("r", call("lz", var("v"), var("w"))), probe(var("r")), probe(arr(var("v"), var("w")))]))
    # on the second argument, on both, several per argument
    for l1, l2 in itertools.product([[], [["n", 1]], [["b", False], ["usome"]]], [[["n", 1]], [["uok"], ["n", 2]], [["s", "x"]], []]):
        f = f2("lz", l1, l2)
        for a, c in itertools.product([n(1), n(2), b(False), prim("some", n(4))], [n(1), n(2), prim("ok", n(3)), s("x"), s("z")]):
            cases.append(([f], [decl("r", call("lz", prim("pr", prim("dynv", a)), prim("pr", prim("dynv", c)))), probe(var("r"))]))
    # nested, in loops, as operands; mutation of what came back
    f = f2("lz", [["n", 1]], [["usome"]])
    g = Fn("lg", ["p", "q", "r"], block(ret(n(0))), lz=[[["b", True]], [["b", False]], []])
    for a, c in itertools.product([n(1), n(2)], [prim("some", n(4)), n(5)]):
        cases.append(([f], [decl("r", call("lz", call("lz", prim("dynv", a), prim("dynv", c)), prim("pr", n(1)))), probe(var("r")), probe(arr(call("lz", prim("dynv", a), prim("dynv", c)), n(9))),
                            forn("for", "i", None, n(3), block(decl("w", call("lz", prim("dynv", prim("+", n(0), var("i"))), prim("dynv", c))), probe(var("w"))))]))
    for t3 in itertools.product([True, False], repeat=3):
        cases.append(([g], [decl("r", call("lg", *[prim("pr", b(t)) for t in t3])), probe(var("r"))]))
        # library operators that stop early
        p = [prim("pr", b(t)) for t in t3]
        for e in (prim("and", prim("and", p[0], p[1]), p[2]), prim("or", prim("or", p[0], p[1]), p[2]), prim("or", prim("and", p[0], p[1]), p[2]), prim("and", p[0], prim("or", p[1], p[2])), prim("and", prim("not", p[0]), prim("or", p[1], p[2]))):
            cases.append([decl("r", e), probe(var("r")), if_(e, block(probe(n(1))), block(probe(n(2))))])
    for a in (prim("some", n(1)), prim("none"), prim("ok", arr(n(1))), prim("err", s("e")), prim("some", prim("none"))):
        cases.append([decl("r", prim("unwrap_or", prim("pr", prim("dynv", a)), prim("pr", n(7)))), probe(var("r")), decl("v", prim("dynv", a)), decl("w", arr(n(7))), decl("r", prim("unwrap_or", var("v"), var("w"))), asg("=", "w", [I(0)], n(8)), probe(var("r"))])
    return cases

# ------------------------------------------------------------------ functions
def calls():
    """Which function is called and with what."""
    cases = []
    A = ["p", "q", "r"]
    nargs = {k: Fn("na%d" % k, A[:k], block(ret(arr(*[prim("clone", var(x)) for x in A[:k]])))) for k in range(4)}
    for k in range(4):
        cases.append((list(nargs.values()), [probe(call("na%d" % k, *[prim("pr", n(i)) for i in range(k)]))]))
    # the short form, recursion, mutual recursion, functions before and after main
    e1 = Fn("dbl", ["p"], prim("*", var("p"), n(2)), expr=True)
    e2 = Fn("neg1", ["p"], prim("-", call("dbl", var("p")), n(1)), expr=True)
    ev = Fn("ev", ["p"], block(if_(prim("==", var("p"), n(0)), block(ret(b(True)))), ret(call("od", prim("-", var("p"), n(1))))))
    od = Fn("od", ["p"], block(if_(prim("==", var("p"), n(0)), block(ret(b(False)))), ret(call("ev", prim("-", var("p"), n(1))))))
    fib = Fn("fib", ["p"], block(if_(prim("<", var("p"), n(2)), block(ret(prim("clone", var("p"))))), ret(prim("+", call("fib", prim("-", var("p"), n(1))), call("fib", prim("-", var("p"), n(2)))))))
    for x in range(6):
        cases.append(([e1, e2, ev, od, fib], [probe(call("neg1", n(x))), probe(call("ev", n(x))), probe(call("fib", n(x)))]))
    # arguments: references are not copies; what a callee declares is gone after
    mu = Fn("mu", ["p", "q"], block(asg("+=", "p", [], var("q")), decl("z", n(5)), asg("=", "z", [], var("p")), probe(var("z"))), rets=False, muts=["p"])
    sw = Fn("sw", ["p", "q"], block(decl("z", prim("clone", var("p"))), asg("=", "p", [], prim("clone", var("q"))), asg("=", "q", [], prim("clone", var("z")))), rets=False, muts=["p", "q"])
    ch = Fn("ch", ["p"], block(call("mu", var("p"), n(7)), call("mu", var("p"), var("p")), ret(prim("clone", var("p")))), muts=["p"])
    st = Fn("sta", ["p"], block(asg("=", "p", [I(0)], n(9)), ret(prim("clone", var("p")))), muts=["p"])
    lo = Fn("lo", ["x"], block(decl("y", n(100)), asg("+=", "y", [], var("x")), decl("x", n(1)), ret(prim("+", prim("clone", var("x")), var("y")))))
    early = Fn("early", ["p"], block(forn("for", "i", None, n(5), block(decl("z", n(3)), if_(prim("==", var("i"), var("p")), block(ret(prim("+", n(0), var("i"))))))), ret(n(-1))))
    fx = [mu, sw, ch, st, lo, early]
    V, D = var, decl
    for stt in [
        [D("x", n(1)), D("y", n(2)), call("mu", V("x"), V("y")), probe(arr(V("x"), V("y"))), call("mu", V("x"), V("x")), probe(V("x"))],
        [D("x", n(1)), D("y", n(2)), call("sw", V("x"), V("y")), probe(arr(V("x"), V("y"))), call("sw", V("x"), V("x")), probe(V("x"))],
        [D("x", n(1)), probe(call("ch", V("x"))), probe(V("x"))], [D("x", n(1)), D("y", n(5)), probe(call("lo", V("x"))), probe(arr(V("x"), V("y"))), probe(call("lo", call("lo", V("y"))))],
        [D("x", arr(n(1))), D("y", V("x")), probe(call("sta", V("x"))), probe(arr(V("x"), V("y")))], [probe(arr(*[call("early", n(i)) for i in range(6)]))],
        [D("x", n(1)), probe(prim("+", prim("+", call("ch", V("x")), V("x")), call("ch", V("x")))), probe(V("x"))],
    ]:
        cases.append((fx, stt))
    # return slot: set, changed, read, with early leave; nothing returned is an error
    rs = [Fn("r0", ["p"], block(asg("=", "return", [], n(1)), if_(prim("==", var("p"), n(1)), block(asg("=", "return", [], n(2)))), asg("+=", "return", [], n(10)))),
          Fn("r1", ["p"], block(asg("=", "return", [], arr(n(1))), asg("=", "return", [I(0)], prim("clone", var("p"))), prim("push", var("return"), n(4)))),
          Fn("r2", ["p"], block(if_(prim("==", var("p"), n(1)), block(ret(n(5)))), asg("=", "return", [], n(6)), forn("for", "i", None, n(3), block(asg("+=", "return", [], var("i")), if_(prim("==", var("i"), var("p")), block(brk())))))),
          Fn("r3", ["p"], block(if_(prim("==", var("p"), n(1)), block(ret(n(5))))))]
    for f in rs:
        cases.append(([f], [x for i in range(4) for x in (decl("v%d" % i, try_(call(f.name, n(i)))), probe(var("v%d" % i)))]))
    # order of declaration does not matter
    a1 = Fn("za", ["p"], block(ret(prim("+", call("zb", var("p")), n(1)))))
    a2 = Fn("zb", ["p"], block(ret(prim("*", call("zc", var("p")), n(2)))))
    a3 = Fn("zc", ["p"], block(ret(prim("-", var("p"), n(3)))))
    for perm in itertools.permutations([a1, a2, a3]):
        cases.append((list(perm), [probe(call("za", n(5))), probe(call("zc", n(5)))]))
    return cases

# ------------------------------------------------------------------ vectors
def vectors():
    cases = []
    v = vec4(n(1), n(2), n(3), n(4))
    P = lambda e: [decl("r", e), probe(var("r"))]
    for k in range(1, 5):
        cases.append(P(vecn(*[prim("pr", n(i + 5)) for i in range(k)])))
        cases.append(P(matn(*[vec4(*[n(4 * i + j + 1) for j in range(4)]) for i in range(k)])))
        m = matn(*[vec4(*[n(4 * i + j + 1) for j in range(4)]) for i in range(k)]); m["_rows"] = True
        cases.append(P(m))
    # every swizzle of two, three and four components, alone and together with others
    for sw in itertools.product("xyzw", repeat=2):
        sw = "".join(sw)
        cases.append([decl("v", v)] + P(vecn(swz(sw, var("v")))) + P(vecn(swz(sw, var("v")), n(9))) + P(vecn(swz(sw, var("v")), swz(sw[::-1], var("v")))) + P(vecn(n(9), swz(sw, var("v")), n(8))) + P(vecn(n(7), n(8), swz(sw, var("v")))))
    for sw in itertools.product("xyzw", repeat=3):
        sw = "".join(sw)
        cases.append([decl("v", v)] + P(vecn(swz(sw, var("v")))) + P(vecn(swz(sw, var("v")), n(9))) + P(vecn(n(9), swz(sw, var("v")))))
    for sw in itertools.product("xyzw", repeat=4):
        cases.append([decl("v", v)] + P(vecn(swz("".join(sw), var("v")))))
    for bad in (n(1), arr(n(1)), s("x")):
        cases.append([decl("v", prim("dynv", bad)), decl("r", try_(vecn(swz("xy", var("v"))))), probe(var("r")), decl("r", try_(vec4(n(1), n(2), var("v"), n(3)))), probe(var("r"))] if bad["k"] != "lit" or bad["v"][0] != "n" else
                     [decl("v", prim("dynv", bad)), decl("r", try_(vecn(swz("xy", var("v"))))), probe(var("r"))])
    # vec4 i e, with i in every kind of place
    a = arr(n(3), n(5), n(7), n(11))
    ad = Fn("ad", ["p", "q"], block(ret(prim("-", var("p"), var("q")))))
    mks = [lambda i: i, lambda i: prim("+", i, n(1)), lambda i: prim("*", n(2), i), lambda i: prim("neg", prim("+", i, n(1))), lambda i: prim("clone", item("a", [E(i)])), lambda i: prim("s", var("v"), i),
           lambda i: call("ad", i, n(2)), lambda i: call("ad", n(2), i), lambda i: prim("pr", i), lambda i: forn("sum", "k", None, prim("+", i, n(1)), block(prim("+", var("k"), n(1)))), lambda i: forn("sum", "k", i, n(5), block(n(1))),
           lambda i: forn("sum", "k", None, n(3), block(prim("*", var("k"), i))), lambda i: forn("prod", "k", None, n(3), block(prim("+", var("k"), i))), lambda i: prim("max", forn("sift", "k", None, n(3), block(prim("*", var("k"), i)))),
           lambda i: if_(prim("==", i, n(1)), block(n(5)), block(n(6))), lambda i: if_(b(True), block(prim("clone", i)), block(n(6))), lambda i: if_(b(False), block(n(3)), block(prim("clone", i))), lambda i: if_(b(False), block(n(3)), if_(prim(">", i, n(1)), block(n(7)), block(n(8)))),
           lambda i: if_(b(False), block(n(3)), if_(b(True), block(prim("clone", i)), block(n(8)))),
           lambda i: block(decl("z", i), asg("+=", "z", [], i), prim("clone", var("z"))), lambda i: prim("len", fill(n(0), i)), lambda i: prim("max", arr(n(0), i)), lambda i: prim("x", vec4(i, n(0), n(0), n(0))), lambda i: prim("y", vecn(n(0), swz("xy", vec4(i, n(3), n(0), n(0))))),
           lambda i: prim("unwrap_or", prim("none"), i), lambda i: prim("unwrap", try_(prim("+", i, n(0)))), lambda i: prim("s", unvec(4, lambda k: prim("*", k, i), "k"), n(2)), lambda i: callc("f", [], i),
           lambda i: block(decl("z", n(0)), forn("for", "k", None, n(3), block(asg("+=", "z", [], i))), prim("clone", var("z"))), lambda i: block(decl("z", n(0)), for_(decl("k", i), prim("<", var("k"), n(4)), asg("+=", "k", [], n(1)), block(asg("+=", "z", [], n(1)))), prim("clone", var("z"))),
           lambda i: block(decl("z", n(0)), for_(decl("k", n(0)), prim("<", var("k"), i), asg("+=", "k", [], n(1)), block(asg("+=", "z", [], i))), prim("clone", var("z"))),
           lambda i: block(decl("z", arr(n(1), n(2), n(3), n(4))), asg("=", "z", [E(i)], n(0)), forn("sum", "k", None, n(4), block(prim("clone", item("z", [E(var("k"))]))))),
           lambda i: prim("dynv", forn("min", "k", None, n(3), block(prim("-", var("k"), i)))), lambda i: prim("dynv", forn("max", "k", None, n(3), block(prim("-", var("k"), i)))),
           lambda i: if_(forn("any", "k", None, n(3), block(prim("==", var("k"), i))), block(n(1)), block(n(2))), lambda i: if_(forn("all", "k", None, n(3), block(prim("<", var("k"), i))), block(n(1)), block(n(2))),
           lambda i: block(decl("o", obj(("k", i))), prim("clone", item("o", [Kf("k")]))), lambda i: block(decl("l", link(i)), n(2)), lambda i: prim("unwrap", prim("head", link(i, n(3)))), lambda i: prim("unwrap", prim("some", i))]
    for mk in mks:
        cases.append(([ad], [x for k in (2, 3, 4) for x in [decl("a", a), decl("v", v), decl("f", clos(["x"], prim("+", prim("clone", var("x")), n(10))))] + P(unvec(k, mk))]))
    # shadowed by a declaration, a loop or a parameter
    for e in (block(decl("i", n(7)), prim("clone", var("i"))), forn("sum", "i", None, n(3), block(prim("+", var("i"), n(1))))):
        cases.append(P({"k": "vec4", "a": [e] * 4, "_un": (4, "i", e)}))
    # libraries
    m = mat4(vec4(n(1), n(2), n(0), n(1)), vec4(n(0), n(1), n(3), n(0)), vec4(n(2), n(0), n(1), n(0)), vec4(n(0), n(1), n(0), n(1)))
    for op in ("x", "y", "z", "w", "mov", "scale", "neg"):
        cases.append([decl("v", vec4(n(5), n(-6), n(7), n(8)))] + P(prim(op, var("v"))))
    for op in ("rx", "ry", "rz", "rw", "cx", "cy", "cz", "cw"):
        cases.append([decl("m", m)] + P(prim(op, var("m"))))
    for i in range(6):
        cases.append([decl("m", m), decl("v", v)] + [x for op, y in (("rv", "m"), ("cv", "m"), ("s", "v")) for x in P(try_(prim(op, var(y), n(i))))])
    for op in ("+", "-", "*", "dot", "cross", "==", "!="):
        for x, y in itertools.product(["v", "w", "m", "k", "n"], repeat=2):
            cases.append([decl("v", v), decl("w", vec4(n(-2), n(0), n(5), n(3))), decl("m", m), decl("k", matn(vec4(n(0), n(1), n(2), n(3)))), decl("n", n(3)), decl("x", prim("dynv", var(x))), decl("y", prim("dynv", var(y)))] + P(try_(prim(op, var("x"), var("y")))))
    for op in ("+=", "-=", "*=", "="):
        for x, y in itertools.product(["v", "m", "n"], repeat=2):
            cases.append([decl("v", v), decl("m", m), decl("n", n(3)), decl("y", prim("dynv", var(y))), decl("x", prim("dynv", var(x))), decl("z", arr(var("x"), n(0))), decl("r", try_(block(asg(op, "x", [], var("y")), n(1)))), probe(prim("is_ok", var("r"))), probe(var("x")),
                          decl("q", arr(prim("clone", var(x)))), decl("r", try_(block(asg(op, "q", [I(0)], var("y")), n(1)))), probe(prim("is_ok", var("r"))), probe(var("q"))])
    return cases

# ------------------------------------------------------------------ threads
def threads():
    """Threads get copies, give their value to whoever joins, and share nothing else."""
    cases = []
    K_ = lambda v: prim("clone", v)
    idf = Fn("idf", ["p"], block(probe(var("p")), ret(K_(var("p")))))
    quiet = Fn("quiet", ["p"], block(ret(K_(var("p")))))
    two = Fn("two", ["p", "q"], block(probe(arr(K_(var("p")), K_(var("q")))), ret(arr(K_(var("q")), K_(var("p"))))))
    three = Fn("three", ["p", "q", "r"], block(decl("z", arr(var("p"), var("q"), var("r"))), probe(var("z")), ret(K_(var("z")))))
    loc = Fn("loc", ["p"], block(decl("a", arr(K_(var("p")))), asg("=", "a", [I(0)], n(77)), prim("push", var("a"), n(1)), probe(var("a")), probe(var("p")), ret(K_(var("a")))))
    bad = Fn("bad", ["p"], block(probe(s("before")), decl("z", prim("boom", n(1))), ret(K_(var("z")))))
    nore = Fn("nore", ["p"], block(if_(prim("==", K_(var("p")), n(1)), block(ret(n(5))))))
    qf = Fn("qf", ["p"], block(decl("z", q(var("p"))), ret(prim("ok", prim("+", K_(var("z")), n(1))))))
    rec = Fn("rec", ["k"], block(if_(prim("<=", var("k"), n(0)), block(ret(n(0)))), decl("t", go("rec", prim("-", var("k"), n(1)))), decl("r", join(var("t"))), probe(var("r")), ret(prim("+", prim("unwrap", var("r")), n(1)))))
    fan = Fn("fan", ["k"], block(decl("t1", go("quiet", var("k"))), decl("t2", go("quiet", prim("+", n(10), var("k")))), decl("b", prim("unwrap", join(var("t2")))), decl("a", prim("unwrap", join(var("t1")))), ret(arr(K_(var("a")), K_(var("b"))))))
    callf = Fn("callf", ["f"], block(ret(callc("f", [], n(3)))), tys={"f": "\\(any) -> any"})
    cu = Fn("cu", [], block(ret(K_(var("c")))), cus=["c"])
    owncu = Fn("owncu", [], block(decl("c", n(9), cur=True), ret(call("cu"))))
    loops = Fn("loops", ["p"], block(decl("z", n(0)), forn("for", "i", None, n(3), block(if_(prim("==", var("i"), n(2)), block(brk())), asg("+=", "z", [], K_(var("p"))))), ret(K_(var("z")))))
    none0 = Fn("none0", [], block(probe(s("run")), ret(n(4))))
    fx = [idf, quiet, two, three, loc, bad, nore, qf, rec, fan, callf, cu, owncu, loops, none0]
    J = lambda x: probe(join(var(x)))
    vals = [n(3), s("t"), b(True), arr(n(1), arr(n(2))), obj(("k", arr(n(1)))), prim("some", arr(n(1))), prim("none"), prim("ok", n(1)), prim("err", s("e")), link(n(1), s("x")), vec4(n(1), n(2), n(3), n(4)),
            prim("explain_why", b(True), n(8)), prim("explain_where", n(2), s("w"))]
    for v in vals:
        D = prim("dynv", v)
        for f in ("idf", "quiet"):
            cases.append((fx, [decl("x", D), decl("t", go(f, var("x"))), J("t"), probe(var("x")), probe(join(var("t")))]))
        cases.append((fx, [decl("t", go("two", D, n(1))), decl("u", go("two", n(2), D)), J("u"), J("t")]))
    # what the thread got does not follow what happens to the variables afterwards, nor the other way around
    for f in ("idf", "quiet", "loc"):
        cases.append((fx, [decl("x", n(1)), decl("a", arr(var("x"), n(2))), decl("t", go(f, var("a"))), asg("=", "x", [], n(50)), asg("=", "a", [I(1)], n(60)), prim("push", var("a"), n(7)), J("t"), probe(arr(var("x"), var("a")))]))
        cases.append((fx, [decl("a", arr(n(1))), decl("o", obj(("k", var("a")))), decl("t", go(f, var("o"))), asg("=", "a", [I(0)], n(50)), asg("=", "o", [K("k"), I(0)], n(60)), J("t"), probe(arr(var("a"), var("o")))]))
        cases.append((fx, [decl("a", arr(n(1))), decl("c", arr(var("a"), var("a"))), decl("t", go(f, item("c", [I(1)]))), prim("push", var("a"), n(7)), J("t"), probe(var("c"))]))
    cases.append((fx, [decl("x", n(1)), decl("y", n(2)), decl("z", arr(var("x"))), decl("t", go("three", var("x"), var("z"), var("y"))), asg("=", "x", [], n(5)), J("t"), decl("u", go("three", var("z"), arr(var("y")), var("x"))), J("u")]))
    # current objects stay behind, wherever they are
    cus = [Fn("cua%d" % k, ["p%d" % i for i in range(k)], block(ret(K_(var("c")))), cus=["c"]) for k in range(4)]
    for k in range(4):
        for at in range(4):
            ds = [decl("y%d" % i, n(20 + i)) for i in range(at)] + [decl("c", n(1), cur=True)]
            cases.append((cus, ds + [decl("t", go("cua%d" % k, *[n(10 + i) for i in range(k)])), decl("r", join(var("t"))), probe(prim("is_ok", var("r"))), probe(var("c"))]))
    # joining in any order, results of both, errors
    for order in itertools.permutations(["t", "u", "v"]):
        cases.append((fx, [decl("t", go("idf", n(1))), decl("u", go("quiet", n(2))), decl("v", go("loc", n(3)))] + [J(x) for x in order] + [probe(s("end"))]))
    for i, e in enumerate([go("bad", n(1)), go("nore", n(2)), go("nore", n(1)), go("cu"), go("owncu"), go("qf", prim("ok", n(1))), go("qf", prim("err", s("E"))), go("qf", prim("none")), go("loops", n(4)), go("none0"), go("rec", n(3)), go("fan", n(1))]):
        cases.append((fx, [decl("t", e), J("t"), J("t"), decl("x", n(5)), probe(var("x"))]))
        cases.append((fx, [decl("c", n(1), cur=True), decl("x", n(2)), decl("t", e), decl("u", go("quiet", n(3))), J("u"), J("t"), probe(arr(var("x"), var("c")))]))
        cases.append((fx, [decl("r", try_(block(decl("t", e), prim("unwrap", join(var("t")))))), probe(prim("is_ok", var("r"))), probe(n(1))]))
    # arguments are evaluated in order, before the thread runs; a failing one starts nothing
    cases.append((fx, [decl("t", go("two", prim("pr", n(1)), prim("pr", n(2)))), J("t")]))
    cases.append((fx, [decl("r", try_(block(decl("t", go("idf", prim("boom", n(1)))), n(1)))), probe(prim("is_err", var("r")))]))
    # closures, loops of threads, threads made in other functions
    cases.append((fx, [decl("k", n(10)), decl("f", clos(["x"], prim("+", K_(var("x")), gr(1, var("k"))), grabs=[(1, var("k"))])), decl("t", go("callf", var("f"))), asg("=", "k", [], n(20)), J("t"), probe(callc("f", [], n(1)))]))
    cases.append((fx, [forn("for", "i", None, n(3), block(decl("t", go("quiet", prim("+", n(0), var("i")))), J("t")))]))
    cases.append((fx, [probe(call("rec", n(2))), probe(call("fan", n(5)))]))
    cases.append((fx, [probe(forn("sum", "i", None, n(3), block(decl("t", go("quiet", prim("*", n(2), var("i")))), prim("unwrap", join(var("t"))))))]))
    # not a thread
    for v in (n(1), arr(n(1)), s("x"), prim("none")):
        cases.append((fx, [decl("x", prim("dynv", v)), probe(join(var("x"))), probe(var("x"))]))
    return cases

def messages():
    """`in f` receives the arguments of every later call of f, in order, as copies."""
    cases = []
    K_ = lambda v: prim("clone", v)
    f = Fn("f", ["p"], block(ret(n(1))))
    v0 = Fn("v0", [], block(probe(s("v0"))), rets=False)
    two = Fn("two", ["p", "q"], block(probe(arr(K_(var("q")), K_(var("p"))))), rets=False)
    mu = Fn("mu", ["p"], block(asg("+=", "p", [], n(1))), rets=False, muts=["p"])
    fail = Fn("fail", ["p"], block(decl("z", prim("boom", n(1))), ret(K_(var("z")))))
    rec = Fn("rec", ["k"], block(if_(prim("<=", var("k"), n(0)), block(ret(n(0)))), ret(prim("+", n(1), call("rec", prim("-", var("k"), n(1)))))))
    ind = Fn("ind", ["p"], block(decl("z", call("f", arr(K_(var("p"))))), ret(K_(var("z")))))
    lzf = Fn("lzf", ["p", "q"], block(ret(n(2))), lz=[[["n", 5]], []])
    pass_ = Fn("takes", ["r"], block(probe(next_(var("r"))), ret(n(1))))
    prod = Fn("prod", ["k"], block(forn("for", "i", None, K_(var("k")), block(decl("z", call("f", prim("+", n(0), var("i")))))), ret(n(3))))
    open_ = Fn("opn", [], block(decl("r", in_("f")), decl("z", call("f", n(70))), ret(n(1))))     # its receiver is gone afterwards
    fx = [f, v0, two, mu, fail, rec, ind, lzf, pass_, prod, open_]
    F = lambda e: decl("u", call("f", e))
    N_ = lambda r="r": probe(next_(var(r)))
    drain = lambda r="r": forin("for", "m", var(r), block(probe(var("m"))))
    R = lambda fn="f", x="r": decl(x, in_(fn))
    ops_ = {"f1": [F(n(1))], "fa": [F(var("a"))], "n": [N_()], "d": [drain()], "n2": [N_("r2")], "d2": [drain("r2")], "ind": [decl("u", call("ind", var("x")))], "chg": [asg("+=", "x", [], n(1))],
            "open": [decl("u", call("opn"))], "two": [call("two", n(1), n(2))], "blk": [if_(b(True), block(R("f", "r3"), F(n(33)), N_("r3")))], "prod": [decl("u", call("prod", n(3)))]}
    for a, b_, c in itertools.product(ops_, repeat=3):
        if a in ("n2", "d2"): continue
        cases.append((fx, [decl("x", n(5)), decl("a", arr(var("x"), n(2))), R()] + ops_[a] + [R("f", "r2")] + ops_[b_] + ops_[c] + [drain(), drain("r2"), N_()]))
    vals = [n(3), s("t"), arr(n(1), arr(n(2))), obj(("k", arr(n(1)))), prim("some", arr(n(1))), prim("none"), link(n(1), s("x")), vec4(n(1), n(2), n(3), n(4)), prim("explain_why", b(True), n(8))]
    for v in vals:
        cases.append((fx, [R(), decl("x", prim("dynv", v)), F(var("x")), N_(), N_(), call("two", var("x"), n(1)), N_()]))
    for nm, e in (("v0", call("v0")), ("two", call("two", n(1), s("x"))), ("fail", decl("z", try_(call("fail", n(2))))), ("rec", decl("z", call("rec", n(3)))), ("lzf", decl("z", call("lzf", n(5), n(1)))), ("lzf", decl("z", call("lzf", n(4), n(1))))):
        cases.append((fx, [R(nm), e, e, drain(), e, N_(), N_()]))
    cases.append((fx, [R(), F(n(1)), F(n(2)), probe(call("takes", var("r"))), N_(), N_(), decl("q", var("r")), F(n(3)), N_("q"), N_()]))
    # loops over messages
    acc = {"sum": prim("+", item("m", [I(0)]), n(0)), "prod": prim("+", item("m", [I(0)]), n(1)), "min": prim("+", item("m", [I(0)]), n(0)), "max": prim("+", item("m", [I(0)]), n(0)),
           "any": prim("==", item("m", [I(0)]), n(2)), "all": prim("<", item("m", [I(0)]), n(2)), "sift": prim("*", item("m", [I(0)]), n(2))}
    for k, e in acc.items():
        for cnt in range(5):
            calls_ = [F(n(i)) for i in range(cnt)]
            cases.append((fx, [R()] + calls_ + [decl("z", forin(k, "m", var("r"), block(e))), probe(var("z")), N_(), drain(), F(n(9)), N_()]))
            cases.append((fx, [R()] + calls_ + [decl("z", forin(k, "m", var("r"), block(if_(prim("==", item("m", [I(0)]), n(1)), block(brk())), e))), probe(var("z")), drain()]))
            cases.append((fx, [R()] + calls_ + [decl("z", forin(k, "m", var("r"), block(if_(prim("==", item("m", [I(0)]), n(1)), block(cont())), e))), probe(var("z")), drain()]))
            cases.append((fx, [R()] + calls_ + [forn("for", "i", None, n(2), block(decl("z", forin(k, "m", var("r"), block(if_(prim("==", item("m", [I(0)]), n(1)), block(brk("o"))), e))), probe(var("z"))), "o"), drain()]))
            cases.append((fx, [R()] + calls_ + [forn("for", "i", None, n(2), block(decl("z", forin(k, "m", var("r"), block(if_(prim("==", item("m", [I(0)]), n(1)), block(cont("o"))), e))), probe(var("z"))), "o"), drain()]))
    for cnt in range(4):
        calls_ = [F(n(i)) for i in range(cnt)]
        cases.append((fx, [R()] + calls_ + [decl("z", forin("link", "m", var("r"), None, a=[prim("+", item("m", [I(0)]), n(0)), s(";")])), probe(var("z")), N_()]))
        cases.append((fx, [R()] + calls_ + [forin("for", "m", var("r"), block(probe(var("m")), if_(prim("==", item("m", [I(0)]), n(0)), block(F(n(50)))), if_(prim("==", item("m", [I(0)]), n(2)), block(brk())))), N_(), N_()]))
        cases.append((fx, [R()] + calls_ + [forin("for", "m", var("r"), block(if_(prim("==", item("m", [I(0)]), n(1)), block(cont())), probe(var("m")))), N_()]))
        cases.append((fx, [R(), R("f", "r2")] + calls_ + [forin("for", "m", var("r"), block(forin("for", "k", var("r2"), block(probe(arr(K_(var("m")), K_(var("k")))), if_(prim("==", item("k", [I(0)]), n(1)), block(cont("o"))))), probe(s("x"))), "o"), drain("r2")]))
    # messages from threads
    cases.append((fx, [R(), decl("t", go("prod", n(3))), decl("j", join(var("t"))), drain()]))
    cases.append((fx, [R(), decl("t", go("prod", n(2))), decl("w", go("prod", n(2))), decl("j", join(var("t"))), decl("j2", join(var("w"))), drain()]))
    cases.append((fx, [R(), decl("t", go("prod", n(3))), probe(next_(var("r"), True)), probe(next_(var("r"), True)), probe(next_(var("r"), True)), decl("j", join(var("t"))), N_()]))
    cases.append((fx, [R(), R("f", "r2"), decl("t", go("prod", n(2))), probe(next_(var("r"), True)), probe(next_(var("r2"), True)), decl("j", join(var("t"))), drain(), drain("r2")]))
    cases.append((fx, [R(), decl("t", go("opn")), F(n(5)), decl("j", join(var("t"))), drain()]))
    cases.append((fx, [R(), decl("t", go("takes", var("r"))), F(n(5)), decl("j", join(var("t"))), drain()]))
    # not a receiver
    for v in (n(1), arr(n(1))):
        cases.append((fx, [decl("x", prim("dynv", v)), decl("r", try_(next_(var("x")))), probe(prim("is_err", var("r")))]))
    return cases

# ------------------------------------------------- ranges taken from the body
class Infer:
    """Loops without a range around small bodies that use, hide and change lists, indices and counters."""
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.fresh = 0

    def idx(self, d):
        r = self.r
        c = r.random()
        if c < 0.5: return E(var(r.choice(["i", "i", "i", "k", "m"])))
        if c < 0.6: return I(r.randrange(2))
        if c < 0.8 and d > 0: return E(item("b", [self.idx(d - 1)]))
        if d > 0: return E(prim("-", self.num(d - 1), n(0)))
        return E(var("i"))

    def num(self, d):
        r = self.r
        c = r.randrange(10)
        if c < 4: return item("b", [self.idx(d)])
        if c < 6: return item("a", [self.idx(d), self.idx(d)])
        if c < 7: return item("o", [K("q"), self.idx(d)])
        if c < 8: return var(r.choice("ikm"))
        if c < 9 and d > 0: return prim("+", self.num(d - 1), self.num(d - 1))
        return n(r.randrange(3))

    def cond(self, d):
        return prim(self.r.choice(["<", ">=", "=="]), self.num(d), self.num(d)) if self.r.random() < 0.5 else b(self.r.random() < 0.6)

    def stm(self, d):
        r = self.r
        c = r.randrange(20)
        if c < 5: return [probe(self.num(d))]
        if c < 6: return [probe(prim("len", item("a", [self.idx(d)])))]
        if c < 8: return [decl(r.choice("ikm"), prim("+", self.num(d), n(0)))]
        if c < 9: return [decl("b", arr(n(1), n(0), n(1), n(1)))]
        if c < 10: return [decl("a", arr(arr(n(7)), arr(n(8), n(9)), arr(n(1), n(2), n(3))))]
        if c < 11: return [asg("=", "m", [], prim("+", self.num(d), n(0)))]
        if c < 13: return [asg(r.choice(["=", "+="]), "b", [self.idx(d)], prim("*", self.num(d), n(1)))]
        if c < 14: return [asg("=", "a", [self.idx(d), self.idx(d)], prim("*", self.num(d), n(1)))]
        if d <= 0: return [probe(self.num(0))]
        if c < 16:
            el = None
            if r.random() < 0.5: el = self.blk(d - 1) if r.random() < 0.6 else if_(self.cond(d - 1), self.blk(d - 1), self.blk(d - 1))
            return [if_(self.cond(d - 1), self.blk(d - 1), el)]
        if c < 17:
            x = r.choice("ikj")
            return [for_(decl(x, n(0)), prim("<", var(x), n(2)), asg("+=", x, [], n(1)), self.blk(d - 1))]
        if c < 19:
            x = r.choice("ikj")
            kd = r.choice(["for", "for", "sum", "min", "any", "sift", "all", "max", "prod"])
            bo = self.blk(d - 1) if kd == "for" else block(*(self.blk(d - 1)["a"] if r.random() < 0.4 else []) +
                                                          [self.cond(d - 1) if kd in ("any", "all") else prim("+", self.num(d - 1), n(0))])
            lp = forn(kd, x, None, n(2), bo) if r.random() < 0.5 else infn(kd, x, bo)
            if kd == "for": return [lp]
            self.fresh += 1
            w = "w%d" % self.fresh
            return [decl(w, lp), probe(var(w))]
        return [decl("g", clos(["z"], prim("+", var("z"), n(1)))), probe(callc("g", [], self.num(d)))]

    def blk(self, d):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 3])): out += self.stm(d)
        return block(*out)

    def prog(self):
        r = self.r
        kd = r.choice(["for", "for", "for", "sum", "sift", "any", "min", "link", "max", "all"])
        bo = self.blk(2)
        if kd != "for":
            bo = block(*(bo["a"] if r.random() < 0.5 else []) + [prim("<", self.num(1), n(9)) if kd in ("any", "all") else prim("+", self.num(1), n(0))])
        if kd == "link":
            lp = infn("link", "i", None, a=[prim("+", self.num(1), n(0)), prim("+", self.num(1), n(0))])
        else:
            lp = infn(kd, "i", bo)
        main = [decl("a", arr(arr(n(1), n(0), n(1)), arr(n(1)), arr(n(0), n(1)))), decl("b", arr(n(1), n(0))),
                decl("o", obj(("p", n(1)), ("q", arr(n(1), n(0), n(1), n(0))))), decl("k", n(1)), decl("m", n(0))]
        main += [lp] if kd == "for" else [decl("r", lp), probe(var("r"))]
        return Prog([Fn("main", [], block(*main + [probe(var("b"))]), rets=False)])

def infers(seeds): return [Infer(s).prog() for s in seeds]
