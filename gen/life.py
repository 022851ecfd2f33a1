"""Programs for the lifetime and mutability checkers: most of them are wrong."""
import itertools, random
from ir import *

def dv(e): return prim("dynv", e)
def A(op, x, ids, v): return asg(op, x, ids, v)
v = var

def helpers():
    return [
        Fn("id", ["p"], block(ret(v("p"))), lts={"p": "return"}),
        Fn("cp", ["p"], block(ret(prim("clone", v("p"))))),
        Fn("fst", ["p", "q"], block(ret(v("p"))), lts={"p": "return"}),
        Fn("both", ["p", "q"], block(ret(if_(b(True), block(v("p")), block(v("q"))))), lts={"p": "q", "q": "return"}),
        Fn("keep", ["p", "q"], block(A("=", "p", [I(0)], v("q"))), rets=False, muts=["p"], lts={"q": "p"}),
        Fn("put", ["p", "q"], block(A("=", "p", [I(0)], prim("clone", v("q")))), rets=False, muts=["p"]),
        Fn("wrap", ["p"], arr(v("p")), lts={"p": "return"}, expr=True),
    ]

HELP = {f.name: f for f in helpers()}
def used(tree):
    out = set()
    def walk(d):
        if isinstance(d, dict):
            if d.get("k") in ("call", "go"):
                out.add(d["f"])
            for x in d.values(): walk(x)
        elif isinstance(d, (list, tuple)):
            for x in d: walk(x)
    walk(tree)
    return out

def program(main, fns=()):
    fs = list(fns) + [Fn("main", [], block(*main), rets=False)]
    names = {f.name for f in fs}
    need = set()
    for f in fs: need |= used(f.body)
    return Prog([HELP[x] for x in sorted(need - names)] + fs)

def values(p, q):
    """Values that refer to the variables p and q, or do not."""
    return [v(p), item(p, [I(0)]), item(p, [E(prim("-", n(1), n(1)))]), arr(v(p)), arr(v(p), v(q)), arr(n(1), arr(v(q), arr(v(p)))),
            obj(("a", v(p))), obj(("a", n(1)), ("b", arr(v(p), v(q)))), fill(v(p), n(2)),
            prim("clone", v(p)), arr(prim("clone", v(p))), prim("some", v(p)), prim("unwrap", prim("some", v(p))),
            if_(b(True), block(v(p)), block(v(q))), if_(b(False), block(v(p)), if_(b(True), block(prim("clone", v(q))), block(arr(v(q))))),
            call("id", v(p)), call("cp", v(p)), call("fst", v(p), v(q)), call("wrap", v(p)), arr(call("id", v(p)), v(q)),
            call("id", item(p, [I(0)])), call("id", arr(v(p))), call("id", prim("clone", v(p))), call("cp", item(p, [I(0)])),
            call("both", v(p), v(q)), prim("pop", v(p)), prim("remove", v(p), n(0)),
            forn("sift", "i", None, n(1), block(v(p))), forn("sift", "i", None, n(1), block(prim("clone", v(p)))),
            try_(block(v(p))), item(p, [I(0)], [1]), block(decl("k", arr(n(5))), v(p)), block(decl("k", arr(n(5))), v("k")),
            block(decl("k", arr(v(p))), prim("clone", v("k"))), clos([], n(1)), prim("==", v(p), v(q)), prim("len", v(p)),
            arr(forn("sum", "i", None, n(2), block(prim("len", v(p)))))]

def stores(t, e, ref=False):
    out = [[A("=", t, [], e)], [A("=", t, [I(0)], e)], [decl("m", e), A("=", t, [I(0)], v("m"))], [decl("m", e), probe(v("m"))],
           [prim("push", v(t), e)], [A("=", t, [I(0)], arr(e))], [A(":=", t, [I(0)], e)]]
    if ref:
        out += [[prim("push_ref", v(t), e)], [prim("insert_ref", v(t), n(0), e)], [call("keep", v(t), e)], [call("put", v(t), e)]]
    return out

def locals_():
    """Variables declared in order x, y in an outer and z, w in an inner block; one is stored in another."""
    progs = []
    seen = set()
    for p, q in itertools.product("xyzw", repeat=2):
        for e in values(p, q):
            key = repr(e)
            if key in seen: continue
            seen.add(key)
            for t in "xyzw":
                for st in stores(t, e, e["k"] in ("var", "item", "arr", "call")):
                    if t == p and e["k"] == "prim" and e["op"] in ("pop", "remove"): continue
                    main = [decl("x", dv(arr(arr(n(1)), n(2)))), decl("y", dv(arr(arr(n(3)), n(4)))),
                            if_(b(True), block(decl("z", dv(arr(arr(n(5)), n(6)))), decl("w", dv(arr(arr(n(7)), n(8))))
                                               , *(st + [probe(n(0))]))),
                            decl("d1", n(70)), decl("d2", n(71)), decl("d3", n(72)), decl("d4", n(73)), probe(v("x")), probe(v("y"))]
                    progs.append((main, ()))
    return progs

def fn_bodies():
    a, b_, c = "abc"
    out = []
    for e in (v("b"), arr(v("b")), arr(v("b"), v("c")), arr(v("c"), v("b")), item("b", [I(0)]), prim("clone", v("b")), call("id", v("b")),
              if_(b(True), block(v("b")), block(v("c"))), arr(n(1), arr(v("c"))), v("x"), arr(v("x")), arr(v("x"), v("b"))):
        out += [([A("=", "a", [], e)], None), ([A("=", "a", [I(0)], e)], None), ([A(":=", "a", [I(0)], e)], None),
                ([decl("m", e), A("=", "a", [I(0)], v("m"))], None)]
    for e in (v("a"), arr(v("a")), arr(v("a"), v("b")), arr(v("b"), v("a"), v("c")), item("a", [I(0)]), prim("clone", v("a")), call("id", v("a")),
              call("fst", v("a"), v("b")), if_(b(True), block(v("a")), block(v("b"))), v("x"), arr(v("x"), v("a")), obj(("k", v("a"))),
              call("cp", v("a")), prim("pop", v("a")), call("both", v("a"), v("b")), arr(call("wrap", v("a")), v("b"))):
        out += [([], e), ([decl("m", e)], v("m")), ([decl("m", arr(e))], prim("clone", v("m")))]
    out += [([prim("push_ref", v("a"), v("b"))], None), ([call("keep", v("a"), v("b"))], None), ([call("put", v("a"), v("b"))], None),
            ([call("keep", v("a"), v("x"))], None), ([call("keep", v("x"), v("a"))], None), ([call("keep", v("x"), v("a"))], v("x")),
            ([prim("push_ref", v("x"), v("a")), prim("push_ref", v("x"), v("b"))], prim("clone", v("x"))),
            ([if_(b(True), block(A("=", "a", [I(0)], v("b"))))], None), ([for_(decl("i", n(0)), prim("<", v("i"), n(1)), A("+=", "i", [], n(1)),
              block(A("=", "a", [I(0)], v("b"))))], None),
            ([if_(b(True), block(ret(v("a"))))], prim("clone", v("b"))), ([if_(b(True), block(ret(prim("clone", v("a")))))], v("b"))]
    return out

def args_(limit=None, rng=None):
    """A function with three arguments of all combinations of lifetimes, and a call."""
    combos = []
    names = "abc"
    lts = [["", "return"] + [o for o in names if o != x] for x in names]
    bodies = fn_bodies()
    for la, lb, lc in itertools.product(*lts):
        for bi in range(len(bodies)):
            for perm in range(6):
                combos.append((la, lb, lc, bi, perm))
    if limit and limit < len(combos): combos = rng.sample(combos, limit)
    progs = []
    for la, lb, lc, bi, perm in combos:
        st, r = bodies[bi]
        body = [decl("x", dv(arr(arr(n(9)))))] + list(st) + ([ret(r)] if r is not None else [])
        f = Fn("f", list("abc"), block(*body), rets=r is not None, muts=list("abc"),
               lts={k: l for k, l in zip("abc", (la, lb, lc)) if l})
        o = list(itertools.permutations("xyz"))[perm]
        decls = [decl(k, dv(arr(arr(n(i)), n(10 + i)))) for i, k in enumerate(o)]
        c = call("f", v("x"), v("y"), v("z"))
        use = [decl("r", c), decl("e1", n(60)), decl("e2", n(61)), decl("e3", n(61)), probe(v("r"))] if r is not None else [c]
        main = decls[:2] + [if_(b(True), block(decls[2], *(use + [probe(n(0))])))] + \
            [decl("d%d" % i, n(70 + i)) for i in range(5)] + [probe(v(o[0])), probe(v(o[1]))]
        progs.append((main, (f,)))
    return progs

MSG = Fn("msg", ["w"], block(probe(n(0))), rets=False)
def inner(p):
    return [v(p), item(p, [I(0)]), item(p, [E(prim("-", n(1), n(1)))]), call("id", v(p)), call("wrap", v(p)), call("cp", v(p)), prim("pop", v(p)), prim("clone", v(p)),
            arr(v(p)), call("fst", v(p), n(1)), call("both", v(p), v(p)), prim("remove", v(p), n(0))]

def forms():
    """Expressions with a part, as functions of the part."""
    I_ = lambda kd, bo, x="i": forn(kd, x, None, n(2), block(bo))
    IN = lambda kd, bo, x="z": forin(kd, x, v("rr"), block(bo))
    num = lambda e: prim("len", arr(e))
    o1 = dv(n(1))
    out = [lambda e: e, lambda e: arr(e), lambda e: arr(n(1), e), lambda e: obj(("k", e)), lambda e: obj(("j", n(1)), ("k", arr(e))), lambda e: fill(e, n(2)), lambda e: fill(n(1), num(e)),
           lambda e: if_(b(True), block(e), block(o1)), lambda e: if_(b(False), block(o1), block(e)),
           lambda e: if_(b(False), block(o1), if_(b(True), block(e), block(o1))), lambda e: if_(b(False), block(o1), if_(b(False), block(o1), block(e))),
           lambda e: if_(prim("==", n(1), num(e)), block(o1), block(o1)), lambda e: if_(b(False), block(o1), if_(prim("==", num(e), n(2)), block(o1), block(o1))),
           lambda e: block(e), lambda e: block(decl("k1", arr(n(5))), e), lambda e: block(decl("k1", e), v("k1")), lambda e: block(decl("k1", e), arr(v("k1"))), lambda e: block(probe(n(1)), e),
           lambda e: prim("clone", e), lambda e: prim("some", e), lambda e: prim("ok", e), lambda e: prim("unwrap", prim("some", e)), lambda e: prim("unwrap_or", prim("none"), e), lambda e: prim("dynv", e),
           lambda e: num(e), lambda e: prim("==", n(1), num(e)), lambda e: prim("!=", n(1), num(e)), lambda e: prim("+", num(e), n(1)), lambda e: prim("not", prim("==", n(1), num(e))), lambda e: prim("neg", num(e)),
           lambda e: vec4(num(e), n(0), n(0), n(0)), lambda e: link(num(e)), lambda e: try_(e), lambda e: prim("unwrap", try_(e)),
           lambda e: I_("sift", e), lambda e: I_("sift", arr(e)), lambda e: I_("sum", num(e)), lambda e: I_("prod", num(e)), lambda e: I_("min", num(e)), lambda e: I_("max", num(e)),
           lambda e: I_("any", prim("==", n(1), num(e))), lambda e: I_("all", prim("==", n(1), num(e))), lambda e: forn("link", "i", None, n(2), None, a=[num(e)]),
           lambda e: forn("sift", "i", None, num(e), block(n(1))), lambda e: forn("sum", "i", n(0), num(e), block(n(1))),
           lambda e: IN("sift", e), lambda e: IN("sift", arr(e)), lambda e: IN("sum", num(e)), lambda e: IN("prod", num(e)), lambda e: IN("min", num(e)), lambda e: IN("max", num(e)),
           lambda e: IN("any", prim("==", n(1), num(e))), lambda e: IN("all", prim("==", n(1), num(e))), lambda e: forin("link", "z", v("rr"), None, a=[num(e)]),
           lambda e: callc("cl", [], e), lambda e: clos(["t"], prim("+", v("t"), prim("len", arr(dict(grab(0), _expr=e)))), (), [(0, e)]),
           lambda e: join(go("cp", e)), lambda e: next_(v("rr")), lambda e: block(forn("for", "i", None, n(1), block(decl("k2", e), probe(v("k2")))), arr(n(1)))]
    return out

def has_k(tree, ks):
    if isinstance(tree, dict):
        return tree.get("k") in ks and (tree["k"] != "callc" or True) or any(has_k(x, ks) for x in tree.values())
    if isinstance(tree, (list, tuple)): return any(has_k(x, ks) for x in tree)
    return False

def forms_(limit=None, rng=None):
    F = forms()
    ix = [(a, -1, i, t) for a in range(len(F)) for i in range(12) for t in range(13)]
    ix += [(a, c, i, t) for a in range(len(F)) for c in range(1, len(F)) for i in range(12) for t in range(13)]
    if limit and limit < len(ix):
        k = len(F) * 12 * 13
        ix = rng.sample(ix[:k], min(k, limit // 2)) + rng.sample(ix[k:], limit - min(k, limit // 2))
    progs = []
    for a, c, i, t in ix:
        e = inner("p")[i]
        if c >= 0: e = F[c](e)
        e = F[a](e)
        rr = has_k(e, ("forin", "next"))
        cl = has_k(e, ("callc",))
        pre = ([decl("rr", in_("msg")), call("msg", n(1))] if rr else []) + ([decl("cl", clos(["t1"], arr(n(1))))] if cl else [])
        fs = [MSG] if rr else []
        P0 = decl("p", dv(arr(arr(n(3)), n(4))))
        Y = decl("y", dv(arr(arr(n(5)), n(6))))
        tail = [decl("d%d" % q, n(70 + q)) for q in range(4)]
        pops = ["p"] if has_k(e, ("prim",)) and i in (6, 11) else []
        if t < 3:
            f = Fn("f", ["p"] if t < 2 else [], block(*pre + ([P0] if t == 2 else []) + [ret(e)]), lts={"p": "return"} if t == 1 else {}, muts=pops if t < 2 else [])
            m = [Y, decl("x", call("f", *([v("y")] if t < 2 else [])))] + tail + [probe(v("x"))]
        elif t == 3:
            f, m = None, pre + [decl("x", dv(arr(n(1)))), if_(b(True), block(P0, A("=", "x", [], e)))] + tail + [probe(v("x"))]
        elif t == 4:
            f, m = None, pre + [decl("x", dv(arr(n(1)))), P0, A("=", "x", [I(0)], e)] + tail + [probe(v("x"))]
        elif t == 5:
            f, m = None, pre + [decl("x", block(P0, e))] + tail + [probe(v("x"))]
        elif t in (6, 7):
            f = Fn("f", ["a", "p"], block(*pre + [A("=", "a", [I(0)], e)]), rets=False, muts=["a"] + pops, lts={"p": "a"} if t == 6 else {})
            m = [Y, decl("x", dv(arr(n(1)))), call("f", v("x"), v("y"))] + tail + [probe(v("x"))]
        elif t == 8:
            if pre or has_k(e, ("clos", "try")): continue
            f = Fn("f", ["p"], e, expr=True, muts=pops)
            m = [Y, decl("x", call("f", v("y")))] + tail + [probe(v("x"))]
        elif t == 9:
            f = Fn("f", [], block(*pre + [ret(e)]), cus=["p"], curmut=pops)
            m = [decl("p", dv(arr(arr(n(3)), n(4))), cur=True), decl("x", call("f"))] + tail + [probe(v("x"))]
        elif t == 10:
            f, m = None, pre + [P0, decl("x", e)] + tail + [probe(v("x")), probe(v("p"))]
        elif t == 11:
            f, m = None, pre + [P0, decl("x", dv(arr(n(1)))), A("=", "x", [I(0)], e)] + tail + [probe(v("x"))]
        else:
            f, m = None, pre + [P0, probe(e)] + tail + [probe(v("p"))]
        progs.append((m, tuple(fs) + ((f,) if f else ())))
    return progs

def muts_():
    """Arguments and current objects that are marked mut or not, and everything that changes them."""
    progs = []
    changes = [A("=", "a", [], n(1)), A("+=", "a", [], n(1)), A("=", "a", [I(0)], n(1)), A("+=", "a", [I(0)], n(1)), A("=", "a", [I(0), I(0)], n(1)),
               A("=", "a", [E(prim("-", n(1), n(1)))], n(1)), prim("push", v("a"), n(1)), prim("insert", v("a"), n(0), n(1)),
               prim("reverse", v("a")), prim("clear", v("a")), prim("swap", v("a"), n(0), n(1)), decl("k", prim("pop", v("a"))), decl("k", prim("remove", v("a"), n(0))),
               call("put", v("a"), n(1)), A("-=", "a", [I(1)], n(1)), A("*=", "a", [I(1)], n(1)), A("/=", "a", [I(1)], n(1)), A("%=", "a", [I(1)], n(1)), A("^=", "a", [I(1)], n(1)),
               prim("probe", v("a")), decl("k", v("a")), decl("a", n(1)), decl("k", prim("clone", v("a"))), call("cp2", v("a")), A(":=", "a", [K("x")], n(1)),
               prim("push", item("a", [I(0)]), n(1))]
    cp2 = Fn("cp2", ["p"], block(prim("probe", v("p"))), rets=False)
    def wraps(c):
        return [[c], [if_(b(True), block(c))], [forn("for", "i", None, n(1), block(c))], [if_(b(False), block(c), block(probe(n(1))))],
                [for_(decl("i", n(0)), prim("<", v("i"), n(1)), A("+=", "i", [], n(1)), block(c))],
                [if_(b(False), block(probe(n(1))), if_(b(True), block(c), block(probe(n(2)))))],
                [decl("w", try_(block(c, n(1))))], [loop(block(c, brk()))],
                [decl("w", forn("sum", "i", None, n(1), block(c, n(1))))]]
    for c in changes:
        for st in wraps(c):
            for mut in (False, True):
                st2 = [decl("z", n(0))] + st + [probe(n(0))]
                start = dv(obj(("x", n(5)), ("y", n(6)))) if c["k"] == "asg" and c["op"] == ":=" else dv(arr(arr(n(1)), n(2)))
                f = Fn("f", ["a"], block(*st2), rets=False, muts=["a"] if mut else [])
                progs.append(([decl("x", start), decl("t", try_(block(call("f", v("x")), n(1)))), probe(v("x"))], (f, cp2)))
                f = Fn("g", ["q", "a"], block(*st2), rets=False, muts=["a"] if mut else [])
                progs.append(([decl("x", start), decl("t", try_(block(call("g", n(1), v("x")), n(1)))), probe(v("x"))], (f, cp2)))
                f = Fn("f", [], block(*st2), rets=False, cus=["a"], curmut=["a"] if mut else [])
                progs.append(([decl("a", start, cur=True), decl("t", try_(block(call("f"), n(1)))), probe(v("a"))], (f, cp2)))
    # the call has to say mut exactly where the function does
    for k in (1, 2, 3):
        for fm in itertools.product((False, True), repeat=k):
            for cm in itertools.product((False, True), repeat=k):
                ps = list("abc")[:k]
                f = Fn("f", ps, block(*[A("=", p, [], n(5)) for p, m in zip(ps, fm) if m] + [probe(n(0))]), rets=False, muts=[p for p, m in zip(ps, fm) if m])
                xs = ["x", "y", "z"][:k]
                main = [decl(x, n(i)) for i, x in enumerate(xs)] + [call("f", *[v(x) for x in xs], mu=list(cm))] + [probe(v(x)) for x in xs]
                progs.append((main, (f,)))
                # passed on by a function whose own arguments are marked the same way
                for om in itertools.product((False, True), repeat=k) if k < 3 else [fm]:
                    o = Fn("o", ps, block(call("f", *[v(p) for p in ps], mu=list(cm)), probe(n(1))), rets=False, muts=[p for p, m in zip(ps, om) if m])
                    progs.append(([decl(x, n(i)) for i, x in enumerate(xs)] + [call("o", *[v(x) for x in xs])] + [probe(v(x)) for x in xs], (f, o)))
    # wrong number of arguments
    for k in range(4):
        for m in range(4):
            ps = list("abc")[:k]
            f = Fn("f", ps, block(probe(n(0))), rets=False)
            progs.append(([call("f", *[n(i) for i in range(m)], mu=[False] * m)], (f,)))
    return progs

def depth(t):
    d = m = 0
    for c in t:
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        m = max(m, d)
    return m

def make(cases, most=None):
    """most: how deep brackets may be nested on a line (the time for parsing doubles with each)"""
    ps = [program(list(m), fs) for m, fs in cases]
    return ps if most is None else [p for p in ps if max(depth(l) for l in p.source().split("\n")) <= most]

def scopes_():
    """Where a variable can be seen."""
    progs = []
    use = [probe(v("k"))]
    dk = decl("k", n(1))
    def containers(inner):
        return [[if_(b(True), block(*inner))], [if_(b(False), block(probe(n(0))), block(*inner))],
                [if_(b(False), block(probe(n(0))), if_(b(True), block(*inner)))],
                [forn("for", "i", None, n(1), block(*inner))], [for_(decl("i", n(0)), prim("<", v("i"), n(1)), A("+=", "i", [], n(1)), block(*inner))],
                [loop(block(*(inner + [brk()])))], [decl("s", forn("sum", "i", None, n(1), block(*(inner + [n(1)]))))],
                [decl("s", forn("sift", "i", None, n(1), block(*(inner + [n(1)]))))],
                [decl("s", forn("min", "i", None, n(1), block(*(inner + [n(1)]))))],
                [decl("s", forn("any", "i", None, n(1), block(*(inner + [b(True)]))))],
                [decl("s", try_(block(*(inner + [n(1)]))))], [decl("s", block(*(inner + [n(1)])))], inner]
    # declared and used in different places
    for c1 in range(13):
        for c2 in range(13):
            progs.append((containers([dk])[c1] + containers(use)[c2], ()))
            progs.append((containers(use)[c1] + containers([dk])[c2], ()))
            progs.append((containers([dk] + containers(use)[c2])[c1], ()))
            progs.append((containers(containers([dk])[c2] + use)[c1], ()))
            progs.append(([decl("k", n(7))] + containers([dk] + containers(use)[c2])[c1] + use, ()))
    # condition and branches
    for x in ("k", "m"):
        progs += [([if_(prim("==", v(x), n(1)), block(decl("m", n(1)), probe(n(0))), block(probe(n(1))))], ()),
                  ([decl("k", n(1)), if_(prim("==", v(x), n(1)), block(decl("m", n(1)), probe(n(0))), block(probe(v(x))))], ()),
                  ([decl("k", n(1)), if_(b(False), block(decl("m", n(1)), probe(n(0))), if_(prim("==", v(x), n(1)), block(probe(v(x)))))], ())]
    # the counter of a loop
    for kd in ("for", "sum", "prod", "min", "max", "any", "all", "sift"):
        val = b(True) if kd in ("any", "all") else n(1)
        L = lambda inner: [forn("for", "i", None, n(2), block(*inner))] if kd == "for" else [decl("s", forn(kd, "i", None, n(2), block(*(inner + [val]))))]
        progs += [(L([probe(prim("+", v("i"), n(0)))]), ()), (L([probe(n(0))]) + [probe(v("i"))], ()), ([probe(v("i"))] + L([probe(n(0))]), ())]
        progs += [([decl("i", n(2)), forn("for", "i", None, v("i"), block(probe(prim("+", v("i"), n(0)))))], ())]
    progs += [([for_(decl("i", n(0)), prim("<", v("i"), n(2)), A("+=", "i", [], n(1)), block(probe(v("i")))), probe(v("i"))], ()),
              ([for_(decl("i", v("i")), prim("<", v("i"), n(2)), A("+=", "i", [], n(1)), block(probe(v("i"))))], ()),
              ([for_(decl("i", n(0)), prim("<", v("i"), n(2)), A("+=", "i", [], n(1)), block(decl("j", n(1)), probe(v("j")))), probe(v("j"))], ()),
              ([for_(decl("i", n(0)), prim("<", v("i"), v("j")), A("+=", "i", [], n(1)), block(decl("j", n(1)), probe(v("j"))))], ())]
    # a function sees its own variables only
    for f in (Fn("f", ["a"], block(probe(v("k"))), rets=False), Fn("f", ["a"], block(probe(v("a"))), rets=False), Fn("f", ["k"], block(probe(v("k"))), rets=False),
              Fn("f", ["a"], block(decl("k", n(3)), probe(v("k"))), rets=False), Fn("f", ["a"], v("k"), expr=True), Fn("f", ["a"], prim("+", v("a"), n(1)), expr=True),
              Fn("f", ["a", "a"], block(probe(v("a"))), rets=False)):
        c = call("f", *[n(1) for _ in f.args])
        st = [probe(c)] if f.rets else [c]
        progs += [([dk] + st, (f,)), (st, (f,)), (st + [dk] + use, (f,))]
    # closures see their arguments and what they grab
    for body, gr in ((v("k"), ()), (prim("+", v("k"), v("a")), ()), (prim("+", v("a"), n(1)), ()), (v("a"), ()), (arr(v("a")), ()), (prim("clone", v("a")), ()),
                     (block(decl("m", v("a")), prim("clone", v("m"))), ()), (block(decl("m", v("k")), prim("clone", v("m"))), ())):
        c = clos(["a"], body, (), gr)
        progs += [([dk, decl("c", c), probe(callc("c", [], n(2)))], ()), ([decl("c", c), dk, probe(callc("c", [], n(2)))], ())]
    progs += [([probe(callc("c", [], n(2)))], ()), ([decl("c", clos(["a"], prim("+", v("a"), n(1)))), probe(callc("c", [], v("k")))], ()),
              ([A("=", "k", [], n(1))], ()), ([A("+=", "k", [], n(1))], ()), ([A("=", "k", [I(0)], n(1))], ()), ([decl("k", v("k"))], ()),
              ([dk, decl("k", v("k")), probe(v("k"))], ()), ([dk, decl("m", v("k")), A("=", "m", [], v("m"))], ()), ([dk, A("=", "k", [], v("k"))], ()),
              ([probe(item("k", [I(0)]))], ()), ([dk, probe(arr(v("k"), v("m")))], ()), ([dk, probe(item("k", [E(v("m"))]))], ())]
    return progs

def functions_():
    """Headers of functions, and calls of functions with lifetimes from everywhere."""
    progs = []
    names = ["a", "b"]
    for la, lb in itertools.product(["", "return", "a", "b", "z"], repeat=2):
        for rets in (False, True):
            for ex in ((False,) if not rets else (False, True)):
                for body in ("clone", "a", "b"):
                    if not rets and body != "clone": continue
                    e = prim("clone", v("a")) if body == "clone" else v(body)
                    bd = e if ex else block(ret(e)) if rets else block(probe(v("a")))
                    f = Fn("f", names, bd, rets=rets, expr=ex, lts={k: l for k, l in zip(names, (la, lb)) if l})
                    for order in ("xy", "yx"):
                        pre = [decl(x, dv(arr(n(i)))) for i, x in enumerate(order)]
                        c = call("f", v("x"), v("y"))
                        progs.append((pre + ([decl("r", c), decl("d", n(7)), probe(v("r"))] if rets else [c]), (f,)))
                        if not ex and body == "clone":
                            g = go("f", v("x"), v("y"))
                            if rets:
                                progs.append((pre + [decl("t", g), probe(join(v("t")))], (f,)))
    # three arguments with lifetimes among them
    for ls in itertools.product(["", "return", "a", "b", "c"], repeat=3):
        f = Fn("f", ["a", "b", "c"], block(ret(prim("clone", v("a")))), lts={k: l for k, l in zip("abc", ls) if l})
        progs.append(([decl(x, dv(arr(n(i)))) for i, x in enumerate("xyz")] + [decl("r", call("f", v("z"), v("y"), v("x"))), probe(v("r"))], (f,)))
    # the same name twice
    for m1, m2 in itertools.product(((), ("a",)), repeat=2):
        f1 = Fn("f", ["a"], block(probe(n(1))), rets=False, muts=m1)
        f2 = Fn("f", ["a"], block(probe(n(2))), rets=False, muts=m2)
        if m1 == m2:
            progs.append(([decl("x", n(1)), call("f", v("x"))], (f1, f2)))
    # current objects
    for mut in (False, True):
        for st in ([decl("x", v("c")), probe(v("x"))], [decl("x", arr(n(1))), A("=", "x", [], v("c"))], [decl("x", arr(n(1))), A("=", "x", [I(0)], v("c")), probe(v("x"))],
                   [A("=", "c", [], v("c"))], [A("=", "c", [I(0)], v("d"))], [A("=", "c", [I(0)], prim("clone", v("d"))), probe(v("c"))],
                   [decl("x", arr(n(1))), A("=", "c", [I(0)], v("x"))], [A("=", "c", [I(0)], v("p"))], [A("=", "p", [I(0)], v("c"))],
                   [prim("push_ref", v("c"), v("p"))], [decl("x", arr(v("c"), v("d"))), probe(v("x"))], [decl("x", arr(v("c"), v("p"))), probe(v("x"))],
                   [decl("x", arr(n(1))), A("=", "x", [I(0)], arr(v("c"), v("d"))), probe(v("x"))],
                   [probe(call("id", v("c")))], [call("keep", v("c"), v("p"))], [call("put", v("c"), v("p")), probe(v("c"))]):
            for r in (None, v("c"), prim("clone", v("c")), arr(v("c"), n(1)), arr(v("c"), v("d"))):
                f = Fn("f", ["p"], block(*(list(st) + ([ret(r)] if r is not None else [probe(n(9))]))), rets=r is not None, cus=["c", "d"], curmut=["c"] if mut else [], muts=["p"])
                pre = [decl("c", dv(arr(arr(n(1)))), cur=True), decl("d", dv(arr(arr(n(2)))), cur=True), decl("y", dv(arr(arr(n(3)))))]
                c = call("f", v("y"))
                progs.append((pre + ([decl("r", c), decl("u", n(7)), probe(v("r"))] if r is not None else [c]) + [probe(v("c")), probe(v("y"))], (f,)))
    return progs
