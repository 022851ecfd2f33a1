"""Random programs that are right by construction: typed, and with variables
that live long enough.  Every choice comes from the given random generator, so
a seed always gives the same programs."""
from ir import *
import random

KEYS = ["a", "b", "c"]
WORDS = ["", "a", "b", "ab", "ba", "xyz", "Hi", " q ", "0", "12", "a_b"]

def is_a(t): return isinstance(t, tuple) and t[0] == "a"
def is_o(t): return isinstance(t, tuple) and t[0] == "o"
def is_c(t): return isinstance(t, tuple) and t[0] == "c"
def is_opt(t): return isinstance(t, tuple) and t[0] == "opt"
def is_res(t): return isinstance(t, tuple) and t[0] == "res"

def ty_src(t):
    if t in ("n", "b", "s", "l", "v", "m"):
        return {"n": "f64", "b": "bool", "s": "str", "l": "link", "v": "vec4", "m": "mat4"}[t]
    if is_a(t): return "[%s]" % ty_src(t[1])
    if is_o(t): return "{}"
    if is_opt(t): return "opt[%s]" % ty_src(t[1])
    if is_res(t): return "res[%s]" % ty_src(t[1])
    return "any"

class V:
    """A variable in scope."""
    def __init__(self, name, ty, order, mut=True, lo=None, fnarg=False):
        self.name, self.ty, self.order, self.mut, self.fnarg = name, ty, order, mut, fnarg

DEFAULT = dict(
    types=["n", "n", "b", "s", ("a", "n"), ("a", ("a", "n")), ("o", (("a", "n"), ("b", ("a", "n")))),
           ("opt", "n"), ("res", "n"), "l", "v"],
    fns=3, stmts=7, depth=3, edepth=2, loops=1.0, ifs=1.0, refs=1.0, mut=1.0, calls=1.0, clos=0.5, errs=0.02, tries=0.4,
    q=0.5, cur=0.3, links=0.4, probes=0.5, pr=0.12, acc=0.5, labels=0.5, sec=0.2, vec=0.3, opt=0.5, shadow=0.2, dyn=0.05,
    ranges=0.3, threads=0, ins=0, wild=0)

class G:
    def __init__(self, seed, **prof):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.fns = []
        self.cnt = 0

    # ------------------------------------------------------------- helpers
    def ch(self, xs): return xs[self.r.randrange(len(xs))]
    def chance(self, p): return self.r.random() < p
    def name(self, base="v"):
        self.cnt += 1
        return base + str(self.cnt)

    def program(self):
        for i in range(self.r.randint(0, self.p["fns"])):
            self.fns.append(self.function("f%d" % i))
        self.fns.append(self.main())
        order = list(range(len(self.fns)))
        self.r.shuffle(order)
        return Prog(self.fns, order=order)

    # ------------------------------------------------------------- functions
    def new_fn_state(self):
        self.scope = []          # V, innermost last
        self.loops = []          # labels of the loops around (None: no label)
        self.order = 0
        self.ret = None          # type that the function returns
        self.canq = False        # `?` is possible: the function returns a result
        self.hascur = set()
        self.inclos = 0

    def function(self, name):
        self.new_fn_state()
        args, muts, lts, tys = [], [], {}, {}
        arr_arg = None
        for i in range(self.r.randint(0, 3)):
            a = "p%d" % i
            t = self.ch(self.p["types"])
            mut = self.chance(0.4 * self.p["mut"])
            v = V(a, t, 0, mut, fnarg=True)
            self.scope.append(v)
            args.append(a)
            if mut: muts.append(a)
            if self.chance(0.5): tys[a] = ty_src(t)
        rets = self.chance(0.75)
        self.ret = self.ch(self.p["types"]) if rets else None
        if rets and self.chance(0.35 * self.p["q"]): self.ret = ("res", self.ch(["n", "b", "s"]))
        self.canq = is_res(self.ret)
        cus, curmut = [], []
        if self.chance(self.p["cur"]):
            c = self.ch(["cn", "ca"])
            t = {"cn": "n", "ca": ("a", "n")}[c]
            cus = [c]
            m = self.chance(0.6)
            if m: curmut = [c]
            self.scope.insert(0, V(c, t, 0, m, fnarg=True))
        if self.p["wild"]:
            for i, a in enumerate(args):
                if self.chance(0.3):
                    lts[a] = self.ch((["return"] if rets else []) + (args[i + 1:] if self.chance(0.9) else args) or ["return"])
        body = self.stmts(self.r.randint(1, self.p["stmts"]), self.p["depth"] - 1)
        if rets:
            body.append(self.mkret(self.expr(self.ret, 2, fresh=True)))
        f = Fn(name, args, block(*body), rets=rets, cus=cus, muts=muts, lts=lts, tys=tys,
               rty=ty_src(self.ret) if rets and self.chance(0.6) else None, curmut=curmut)
        f.sig = ([v.ty for v in self.scope if v.fnarg and v.name in args], self.ret)
        f.needs = cus
        f.sig = ([next(v.ty for v in self.scope if v.name == a and v.fnarg) for a in args], self.ret)
        return f

    def main(self):
        self.new_fn_state()
        pre = []
        if self.chance(max(self.p["cur"], 0.02)) or any(f.needs for f in self.fns):
            for c, t in (("cn", "n"), ("ca", ("a", "n"))):
                pre.append(decl(c, self.expr(t, 1, fresh=True), cur=True))
                self.declare(c, t)
                self.hascur.add(c)
        if self.p["threads"] or self.p["ins"]:
            body = pre + self.concurrent()
        else:
            body = pre + self.stmts(self.r.randint(3, 2 * self.p["stmts"]), self.p["depth"])
        for v in self.scope:
            if not is_c(v.ty):
                body.append(probe(var(v.name)))
        return Fn("main", [], block(*body), rets=False)

    def concurrent(self):
        """Statements of main with threads and receivers of messages."""
        out, ths, rxs, cnt = [], [], [], 0
        for _ in range(self.r.randint(4, 12)):
            x = self.r.random()
            if x < 0.25 and cnt < self.p["threads"]:
                fs = [f for f in self.fns if f.rets and not f.muts and not f.needs]
                if not fs: continue
                f = self.ch(fs)
                a = self.args_for(f, 1)
                t = self.name("th")
                cnt += 1
                ths.append(t)
                out.append(decl(t, go(f.name, *a)))
            elif x < 0.4 and ths:
                t = self.ch(ths)
                if self.chance(0.9): ths.remove(t)
                out.append(probe(join(var(t))))
            elif x < 0.5 and self.p["ins"] and self.fns and len(rxs) < 3:
                r = self.name("rx")
                fs = [f for f in self.fns if not f.muts]
                if not fs: continue
                rxs.append(r)
                out.append(decl(r, in_(self.ch(fs).name)))
            elif x < 0.62 and rxs:
                out.append(probe(next_(var(self.ch(rxs)))))
            elif x < 0.7 and rxs:
                r, m = var(self.ch(rxs)), self.name("m")
                k = self.ch(["for", "sum", "any", "sift", "link"])
                if k == "for": out.append(forin("for", m, r, block(probe(var(m)))))
                elif k == "link": out.append(probe(forin("link", m, r, None, a=[prim("len", var(m)), s(",")])))
                else: out.append(probe(forin(k, m, r, block({"sum": prim("len", var(m)), "any": prim("==", prim("len", var(m)), n(2)), "sift": prim("len", var(m))}[k]))))
            else:
                out += self.stmts(1, self.p["depth"])
        for t in ths: out.append(probe(join(var(t))))
        for r in rxs: out.append(forin("for", "m", var(r), block(probe(var("m")))))
        return out

    def mkret(self, e):
        # `return (` would be a call of a function named `return`
        if src(e, {f.name: f for f in self.fns}, 0).startswith("("):
            e = prim("dynv", e)
        return ret(e)

    def declare(self, name, ty, mut=True):
        self.order += 1
        v = V(name, ty, self.order, mut)
        self.scope.append(v)
        return v

    def visible(self):
        seen, out = set(), []
        for v in reversed(self.scope):
            if v.name not in seen:
                seen.add(v.name)
                out.append(v)
        return out

    # ------------------------------------------------------------- statements
    def nested(self, f):
        """Runs f with a copy of the scope."""
        keep = list(self.scope)
        r = f()
        self.scope = keep
        return r

    def body(self, k, depth, val=None):
        """A block with statements and perhaps a value of type val at the end."""
        def go():
            ss = self.stmts(k, depth)
            if val is not None:
                ss.append(self.expr(val, max(depth, 1), fresh=True))
            elif self.chance(self.p["probes"]) and self.scope:
                v = self.ch(self.visible())
                if not is_c(v.ty): ss.append(probe(var(v.name)))
            return block(*ss)
        return self.nested(go)

    def stmts(self, k, depth):
        out = []
        for _ in range(k):
            s_ = self.stmt(depth)
            if s_ is not None:
                out.append(s_)
                if self.chance(self.p["probes"] * 0.5):
                    vs = [v for v in self.visible() if not is_c(v.ty)]
                    if vs: out.append(probe(var(self.ch(vs).name)))
        return out

    def stmt(self, depth):
        p = self.p
        opts = [("decl", 3.0), ("assign", 2.5), ("arrop", 1.5 * p["mut"]), ("probe", 1.0 * p["probes"]),
                ("call", 1.5 * p["calls"]), ("put", 1.5 * p["refs"])]
        if depth > 0:
            opts += [("if", 1.0 * p["ifs"]), ("forn", 0.8 * p["loops"]), ("loop", 0.3 * p["loops"]),
                     ("cfor", 0.4 * p["loops"]), ("block", 0.2), ("acc", 1.0 * p["acc"]), ("clos", p["clos"]), ("try", p["tries"])]
        if self.loops and not self.inclos:
            opts += [("brk", 0.8 * p["loops"]), ("cont", 0.5 * p["loops"])]
        if self.chance(p["errs"] * 0.3):
            return self.failing(depth)
        if self.canq:
            opts += [("q", p["q"])]
        tot = sum(w for _, w in opts)
        x = self.r.random() * tot
        for o, w in opts:
            x -= w
            if x <= 0: break
        return getattr(self, "st_" + o)(depth)

    def st_decl(self, depth):
        t = self.ch(self.p["types"])
        e = self.expr(t, depth)
        nm = self.name()
        if self.chance(self.p["shadow"]) and self.scope:
            v = self.ch(self.scope)
            # a new variable with an old name
            if not v.fnarg and v.name.startswith("v"): nm = v.name
        self.declare(nm, t)
        return decl(nm, e)

    def muts(self, ty=None):
        return [v for v in self.visible() if (v.mut or (self.p["wild"] and v.fnarg and self.chance(self.p["wild"]))) and (ty is None or v.ty == ty)]

    def st_assign(self, depth):
        vs = [v for v in self.muts() if not is_c(v.ty)]
        if not vs: return None
        v = self.ch(vs)
        return self.assign_to(v, [], v.ty, depth)

    def assign_to(self, v, ids, t, depth):
        """v.ids op= something of type t"""
        if t == "n" and self.chance(0.5):
            op = self.ch(["+=", "-=", "*=", "%="]) if self.chance(0.85) else "^="
            e = n(self.r.randint(1, 3)) if op in ("*=", "%=", "^=") else self.expr("n", depth, before=v)
            if op == "*=": e = n(self.r.randint(-1, 2))
            return asg(op, v.name, ids, e)
        if t == "s" and self.chance(0.3): return asg("+=", v.name, ids, s(self.ch(WORDS)))
        if t == "l" and self.chance(0.6): return asg(self.ch(["+=", "-="]), v.name, ids, self.expr("l", depth))
        if t == "l" and self.chance(0.3): return asg("+=", v.name, ids, self.expr(self.ch(["n", "b", "s"]), depth))
        if t == "v" and self.chance(0.4): return asg(self.ch(["+=", "-="]), v.name, ids, self.expr("v", depth))
        return asg("=", v.name, ids, self.expr(t, depth, before=v))

    def st_put(self, depth):
        """Assigns to a part of a variable."""
        vs = [v for v in self.muts() if is_a(v.ty) or is_o(v.ty)]
        if not vs: return None
        v = self.ch(vs)
        ids, t = self.path(v.ty, depth)
        if is_o(v.ty) and self.chance(0.25):
            k = self.ch([k for k, _ in v.ty[1]])
            t = dict(v.ty[1])[k]
            return asg(":=", v.name, [K(k)], self.expr(t, depth, before=v))
        return self.assign_to(v, ids, t, depth)

    def path(self, t, depth):
        ids = []
        while True:
            if is_a(t):
                if self.chance(0.5): ids.append(I(self.index()))
                else: ids.append(E(prim("%", prim("*", self.pick_var("n", None) or n(1), n(2)), n(2)) if self.chance(0.2) else prim("+", n(0), n(self.index()))))
                t = t[1]
            elif is_o(t):
                k, t = self.ch(t[1])
                ids.append(K(k))
            else: break
            if not (is_a(t) or is_o(t)) or self.chance(0.3): break
        return ids, t

    def index(self):
        x = self.r.random()
        return 0 if x < 0.6 else 1 if x < 0.95 else 2 if x < 0.985 else 7

    def st_arrop(self, depth):
        vs = [v for v in self.muts() if is_a(v.ty)]
        if not vs: return None
        v = self.ch(vs)
        x = var(v.name)
        op = self.ch(["push", "push_ref", "push", "insert", "insert_ref", "push", "push_ref", "reverse", "swap"] + (["pop", "remove"] if self.chance(0.5) else []) + (["clear"] if self.chance(0.1) else []))
        e = lambda: self.expr(v.ty[1], min(depth, 2), before=v)
        if op == "push": return prim("push", x, self.expr(v.ty[1], min(depth, 2)))
        if op in ("push_ref", "insert_ref"):
            w = self.pick_var(v.ty[1], v)
            if w is None: return None
            return prim(op, x, w) if op == "push_ref" else prim(op, x, n(self.index()), w)
        if op == "insert": return prim("insert", x, n(self.index()), e())
        if op == "pop": return probe(prim("pop", x))
        if op == "remove": return probe(prim("remove", x, n(self.index())))
        if op in ("reverse", "clear"): return prim(op, x)
        return prim("swap", x, n(self.index()), n(self.index()))

    def st_probe(self, depth):
        return probe(self.expr(self.ch(self.p["types"]), depth))

    def callable(self, rt=0):
        return [f for f in self.fns if all(c in self.hascur for c in f.needs) and (rt == 0 or f.sig[1] == rt)]

    def args_for(self, f, depth):
        out = []
        for a, t in zip(f.args, f.sig[0]):
            if a in f.muts:
                vs = self.muts(t)
                if not vs: return None
                out.append(var(self.ch(vs).name))
            elif f.lts.get(a) and self.chance(0.9):
                vs = [v for v in self.visible() if v.ty == t]
                if not vs: return None
                out.append(var(self.ch(vs).name))
            else:
                out.append(self.expr(t, depth))
        return out

    def st_call(self, depth):
        fs = self.callable()
        if not fs: return None
        f = self.ch(fs)
        a = self.args_for(f, min(depth, 1))
        if a is None: return None
        c = call(f.name, *a)
        if f.rets: return probe(c) if self.chance(0.6) else self.decl_of(c, f.sig[1])
        return c

    def decl_of(self, e, t):
        nm = self.name()
        self.declare(nm, t)
        return decl(nm, e)

    def st_if(self, depth):
        c = self.expr("b", depth - 1)
        k = self.r.randint(1, 3)
        el = None
        if self.chance(0.5):
            el = self.body(self.r.randint(0, 2), depth - 1)
            if self.chance(0.3):
                el = if_(self.expr("b", 1), self.body(1, depth - 1), el if self.chance(0.7) else None)
        return if_(c, self.body(k, depth - 1), el)

    def label(self):
        return self.name("l") if self.chance(self.p["labels"]) else ""

    def in_loop(self, lb, f):
        self.loops.append(lb)
        r = f()
        self.loops.pop()
        return r

    def st_forn(self, depth):
        lb = self.label()
        x = self.name("i")
        st, en = self.range_(depth)
        def go():
            self.declare(x, "n", mut=self.chance(0.1) and False)
            return self.body(self.r.randint(1, 3), depth - 1)
        bd = self.in_loop(lb, lambda: self.nested(go))
        return forn("for", x, st, en, bd, lb)

    def range_(self, depth):
        if self.chance(self.p["ranges"]):
            a = self.r.randint(-2, 2)
            return n(a), n(a + self.r.randint(-1, 3))
        vs = [v for v in self.visible() if is_a(v.ty)]
        if vs and self.chance(0.3):
            return None, prim("len", var(self.ch(vs).name))
        return None, n(self.r.randint(0, 3))

    def st_loop(self, depth):
        lb = self.label()
        x = self.name("k")
        lim = self.r.randint(1, 3)
        def go():
            self.declare(x, "n", mut=False)
            ss = [asg("+=", x, [], n(1)), if_(prim(">", var(x), n(lim)), block(brk(self.ch(["", lb]) if lb else "")))]
            bd = self.in_loop(lb, lambda: self.stmts(self.r.randint(1, 3), depth - 1))
            return loop(block(*(ss + bd)), lb)
        return block(decl(x, n(0)), self.nested(go))

    def st_cfor(self, depth):
        lb = self.label()
        x = self.name("i")
        def go():
            self.declare(x, "n", mut=False)
            return self.body(self.r.randint(1, 3), depth - 1)
        lim = n(self.r.randint(0, 3))
        bd = self.in_loop(lb, lambda: self.nested(go))
        return for_(decl(x, n(0)), prim("<", var(x), lim), asg("+=", x, [], n(1)), bd, lb)

    def st_brk(self, depth):
        lb = self.ch(self.loops)
        near = self.loops[-1]
        lb = lb if lb and self.chance(0.7) else ""
        return if_(self.expr("b", 1), block(brk(lb)))

    def st_cont(self, depth):
        lb = self.ch(self.loops)
        lb = lb if lb and self.chance(0.7) else ""
        return if_(self.expr("b", 1), block(cont(lb)))

    def bare(self, b_):
        # `{ 'label: ...` would be an object
        if b_["a"] and b_["a"][0].get("lb"): b_["a"].insert(0, probe(n(0)))
        return b_

    def st_block(self, depth):
        b_ = self.bare(self.body(self.r.randint(1, 3), depth - 1))
        return b_ if b_["a"] else None

    def st_acc(self, depth):
        t = self.ch(["n", "n", "b", ("a", "n"), "l"])
        e = self.acc_loop(t, depth)
        if self.chance(0.5): return probe(e)
        return self.decl_of(e, t)

    def st_clos(self, depth):
        args = [(self.name("x"), self.ch(["n", "b", ("a", "n")])) for _ in range(self.r.randint(0, 2))]
        rt = self.ch(["n", "b", "s"])
        grabs = []
        outer = [v for v in self.visible() if not is_c(v.ty)]
        keep, kl, kq, kr = self.scope, self.loops, self.canq, self.ret
        self.scope, self.loops, self.canq = [V(a, t, 0, False, fnarg=True) for a, t in args], [], False
        for v in outer:
            if self.chance(0.5) and len(grabs) < 2 and v.ty in ("n", "b", "s", ("a", "n")):
                gid = len(grabs) + 1
                grabs.append((gid, var(v.name), v.ty))
        self.grabs = grabs
        self.inclos += 1
        e = self.expr(rt, 2, fresh=True)
        if self.chance(0.4):
            e = self.bare(block(*(self.stmts(2, 1) + [e])))
        self.inclos -= 1
        self.grabs = []
        self.scope, self.loops, self.canq, self.ret = keep, kl, kq, kr
        used = set()
        def walk(d):
            if isinstance(d, dict):
                if d.get("k") == "grab": used.add(d["id"])
                for x in d.values(): walk(x)
            elif isinstance(d, list):
                for x in d: walk(x)
        walk(e)
        c = clos([a for a, _ in args], e, grabs=[(g, ex) for g, ex, _ in grabs if g in used])
        nm = self.name("f")
        self.declare(nm, ("c", tuple(t for _, t in args), rt), mut=False)
        return decl(nm, c)

    def st_try(self, depth):
        t = self.ch(["n", "b", "s"])
        if self.chance(0.5) and depth > 0:
            e = self.bare(self.nested(lambda: block(*(self.stmts(1, 0) + [self.failing(depth) if self.chance(0.4) else self.st_probe(0)]
                        + [self.expr(t, 1, fresh=True)]))))
            k = self.loops, self.canq
        else:
            e = self.maybe_fail(t, depth)
        r = try_(e)
        if self.chance(0.4) and e["k"] != "block": return probe(r)
        return self.decl_of(r, ("res", t))

    def st_q(self, depth):
        t = self.ch(["n", "b", "s"])
        e = q(self.expr(self.ch([("opt", t), ("res", t)]), depth))
        if self.chance(0.4): return probe(e)
        return self.decl_of(e, t)

    def failing(self, depth):
        k = self.r.randrange(5)
        if k == 0: return probe(prim("boom", n(1)))
        if k == 1: return probe(prim("unwrap", prim("none")))
        if k == 2:
            vs = [v for v in self.visible() if is_a(v.ty)]
            if vs: return probe(item(self.ch(vs).name, [I(self.r.randint(1, 4))]))
        if k == 3:
            vs = [v for v in self.visible() if is_o(v.ty)]
            if vs: return probe(item(self.ch(vs).name, [K("zz")]))
        return probe(prim("+", prim("dynv", s("q")), prim("dynv", n(1))))

    def maybe_fail(self, t, depth):
        if self.chance(0.4):
            if self.chance(0.5): return prim("boom", self.expr(t, 1))
            return prim("unwrap", prim("none"))
        return self.expr(t, max(1, depth), fresh=True)

    # ------------------------------------------------------------- expressions
    def expr(self, t, depth, fresh=False, before=None):
        depth = min(depth, self.p["edepth"])
        if self.p["wild"] and self.chance(self.p["wild"]):      # without care for lifetimes
            fresh, before = False, None
        return self.expr_(t, depth, fresh, before)

    def expr_(self, t, depth, fresh=False, before=None):
        """An expression of type t.  fresh: gives a new value, not a reference;
        before: may refer only to variables that outlive the given one."""
        e = self.expr0(t, depth, fresh, before)
        if self.chance(self.p["pr"]) and not is_c(t):
            e = prim("pr", e)
        return e

    def pick_var(self, t, before):
        vs = [v for v in self.visible() if v.ty == t]
        if before is not None:
            vs = [v for v in vs if v.order < before.order and not v.fnarg and not before.fnarg] if before.order > 0 else []
        return var(self.ch(vs).name) if vs else None

    def read(self, t, depth):
        """Reads a part of a variable."""
        vs = [v for v in self.visible() if is_a(v.ty) or is_o(v.ty)]
        self.r.shuffle(vs)
        for v in vs:
            ids, u = self.path(v.ty, depth)
            if u == t: return item(v.name, ids)
        return None

    def expr0(self, t, depth, fresh, before):
        if getattr(self, "grabs", None) and self.chance(0.5):
            g = [x for x in self.grabs if x[2] == t]
            if g:
                x = self.ch(g)
                d = grab(x[0]); d["_expr"] = x[1]
                return prim("clone", d) if (fresh or before is not None) else d
        if self.chance(0.45):
            v = self.pick_var(t, None if fresh else before)
            if v is not None:
                return prim("clone", v) if fresh else v
        if self.chance(0.3):
            e = self.read(t, depth)
            if e is not None:
                return prim("clone", e) if (fresh or before is not None or not self.chance(0.8)) else e
        if depth <= 0:
            return self.leaf(t, before)
        if self.chance(0.25 * self.p["calls"]) and not self.inclos:
            fs = self.callable(t)
            if fs:
                f = self.ch(fs)
                a = self.args_for(f, 0)
                if a is not None:
                    c = call(f.name, *a)
                    if self.canq and is_res(f.sig[1]) and t == f.sig[1] and False: return c
                    return c
        if self.chance(0.3 * self.p["clos"]):
            cs = [v for v in self.visible() if is_c(v.ty) and v.ty[2] == t]
            if cs:
                v = self.ch(cs)
                return callc(v.name, [], *[self.expr(a, 0) for a in v.ty[1]])
        if self.chance(0.08) and not is_c(t):
            br = lambda e: block(prim("dynv", e) if t in ("n", "b") and e["k"] != "lit" else e)
            return if_(self.expr("b", depth - 1), br(self.expr(t, depth - 1, fresh=True)),
                       br(self.expr(t, depth - 1, fresh=True)))
        if self.canq and self.chance(0.1 * self.p["q"]) and t in ("n", "b", "s") and not self.inclos:
            e = q(self.expr(self.ch([("opt", t), ("res", t)]), depth - 1))
            # `x?` counts as a reference to x
            return prim("clone", e) if (fresh or before is not None) and e["a"][0]["k"] in ("var", "item") else e
        m = {"n": self.e_n, "b": self.e_b, "s": self.e_s, "l": self.e_l, "v": self.e_v, "m": self.e_m}
        if t in m: return m[t](depth, before)
        if is_a(t): return self.e_arr(t, depth, before, fresh)
        if is_o(t):
            return obj(*[(k, self.expr(u, depth - 1, fresh=fresh, before=before)) for k, u in t[1]])
        if is_opt(t):
            return prim("none") if self.chance(0.3) else prim("some", self.expr(t[1], depth - 1))
        if is_res(t):
            x = self.r.random()
            if x < 0.25: return prim("err", s(self.ch(WORDS)))
            if x < 0.45 * self.p["tries"] + 0.25 and not self.inclos: return try_(self.maybe_fail(t[1], depth - 1))
            return prim("ok", self.expr(t[1], depth - 1))
        return self.leaf(t, before)

    def now(self):
        return None

    def alen(self):
        return self.ch([0, 1, 2, 2, 2, 3, 3, 3]) if self.chance(0.5) else 2

    def leaf(self, t, before=None):
        r = self.r
        if t == "n": return n(r.randint(-2, 6))
        if t == "b": return b(r.random() < 0.5)
        if t == "s": return s(self.ch(WORDS))
        if t == "l": return link(*[self.leaf(self.ch(["n", "b", "s"])) for _ in range(r.randint(0, 3))])
        if t == "v": return vec4(*[n(r.randint(-3, 4)) for _ in range(4)])
        if t == "m": return mat4(*[vec4(*[n(r.randint(-2, 3)) for _ in range(4)]) for _ in range(4)])
        if is_a(t): return arr(*[self.leaf(t[1]) for _ in range(self.alen())])
        if is_o(t): return obj(*[(k, self.leaf(u)) for k, u in t[1]])
        if is_opt(t): return prim("none") if self.chance(0.3) else prim("some", self.leaf(t[1]))
        if is_res(t): return prim("err", s("e")) if self.chance(0.3) else prim("ok", self.leaf(t[1]))
        raise ValueError(t)

    def e_n(self, d, before):
        x = self.r.random()
        if x < 0.5:
            op = self.ch(["+", "-", "+", "-", "*", "%"])
            a = self.expr("n", d - 1)
            return prim(op, a, n(self.r.randint(1, 5)) if op == "%" else n(self.r.randint(-2, 3)) if op == "*" else self.expr("n", d - 1))
        if x < 0.6: return prim("len", self.expr(("a", "n"), d - 1))
        if x < 0.7: return self.acc_loop("n", d - 1)
        if x < 0.75: return prim("neg", self.expr("n", d - 1))
        if x < 0.85: return prim("unwrap_or", self.expr(self.ch([("opt", "n"), ("res", "n")]), d - 1), self.expr("n", d - 1))
        if x < 0.9: return prim(self.ch(["min", "max"]), self.expr(("a", "n"), d - 1))
        if x < 0.93 and self.chance(self.p["vec"]): return prim(self.ch(["x", "y", "z", "w"]), self.expr("v", d - 1))
        if x < 0.96 and self.chance(self.p["sec"] * 3): return prim("dynv", prim("explain_where", self.expr("n", d - 1), self.expr(self.ch(["n", "s"]), 0)))
        return self.leaf("n")

    def e_b(self, d, before):
        x = self.r.random()
        if x < 0.35: return prim(self.ch(["<", "<=", ">", ">=", "==", "!="]), self.expr("n", d - 1), self.expr("n", d - 1))
        if x < 0.42: return prim(self.ch(["<", "==", "!=", ">="]), self.expr("s", d - 1), self.expr("s", d - 1))
        if x < 0.47:
            t = self.ch([("a", "n"), ("opt", "n"), ("a", ("a", "n"))])
            return prim(self.ch(["==", "!="]), self.expr(t, d - 1), self.expr(t, d - 1))
        if x < 0.65: return prim(self.ch(["and", "or"]), self.expr("b", d - 1), self.expr("b", d - 1))
        if x < 0.72: return prim("not", self.expr("b", d - 1))
        if x < 0.78: return self.acc_loop("b", d - 1)
        if x < 0.84: return prim(self.ch(["is_ok", "is_err"]), self.expr(("res", "n"), d - 1))
        if x < 0.88: return prim("is_empty", self.expr("l", d - 1))
        if x < 0.92 and self.chance(self.p["sec"] * 3): return prim("dynv", prim("explain_why", self.expr("b", d - 1), self.expr(self.ch(["n", "s"]), 0)))
        if x < 0.95: return prim(self.ch(["+", "*", "^", "-"]), self.expr("b", d - 1), self.expr("b", d - 1))
        return self.leaf("b")

    def e_s(self, d, before):
        x = self.r.random()
        if x < 0.4: return prim("+", self.expr("s", d - 1), self.expr("s", d - 1))
        if x < 0.55: return prim("str", self.expr(self.ch(["b", "s"]), d - 1))
        if x < 0.65: return prim("typeof", self.expr(self.ch(["n", "b", ("a", "n"), ("opt", "n")]), d - 1))
        if x < 0.75: return prim(self.ch(["trim", "trim_left", "trim_right"]), self.expr("s", d - 1))
        return self.leaf("s")

    def e_l(self, d, before):
        x = self.r.random()
        if x < 0.3: return prim("+", self.expr("l", d - 1), self.expr("l", d - 1))
        if x < 0.5: return prim(self.ch(["tail", "neck"]), self.expr("l", d - 1))
        if x < 0.7: return self.acc_loop("l", d - 1)
        return link(*[self.expr(self.ch(["n", "b", "s", "l"]), 0) for _ in range(self.r.randint(0, 3))])

    def e_v(self, d, before):
        x = self.r.random()
        if x < 0.4: return prim(self.ch(["+", "-", "*"]), self.expr("v", d - 1), self.leaf("v"))
        if x < 0.5: return prim("*", self.expr("v", d - 1), n(self.r.randint(-2, 3)))
        if x < 0.6: return prim("cross", self.leaf("v"), self.leaf("v"))
        return vec4(*[self.expr("n", 0) if self.chance(0.3) else n(self.r.randint(-3, 4)) for _ in range(4)])

    def e_m(self, d, before):
        return self.leaf("m")

    def e_arr(self, t, d, before, fresh):
        x = self.r.random()
        if x < 0.12: return fill(self.expr(t[1], d - 1, fresh=fresh, before=before), n(self.alen()))
        if x < 0.25 and t[1] in ("n", "b", "s"): return self.acc_loop(t, d - 1)
        return arr(*[self.expr(t[1], d - 1, fresh=fresh, before=before) for _ in range(self.alen())])

    def acc_loop(self, t, d):
        x = self.name("i")
        lb = self.label()
        st, en = self.range_(d)
        kd = {"n": ["sum", "prod", "min", "max"], "b": ["any", "all"], "l": ["link"]}.get(t, ["sift"])
        kd = self.ch(kd)
        vt = t if not is_a(t) else t[1]
        if kd == "link":
            def go():
                self.declare(x, "n", mut=False)
                k = self.loops
                self.loops = []
                r = [self.expr(self.ch(["n", "b", "s"]), 0, fresh=True) for _ in range(self.r.randint(0, 3))]
                self.loops = k
                return r
            return forn("link", x, st, en, None, lb, a=self.nested(go))
        def go():
            self.declare(x, "n", mut=False)
            keep = self.loops
            self.loops = [lb]       # jumps may leave this loop only
            ss = []
            if d > 0 and self.chance(0.4):
                c = self.expr("b", 1)
                ss.append(if_(c, block(self.ch([brk, cont])(self.ch(["", lb]) if lb else ""))))
            e = prim("%", self.expr("n", max(0, d - 1), fresh=True), n(4)) if kd == "prod" else self.expr(vt, max(0, d - 1), fresh=True)
            self.loops = keep
            return block(*(ss + [e]))
        bd = self.nested(go)
        e = forn(kd, x, st, en, bd, lb)
        # the static type of a value with a secret differs: hide it
        return prim("dynv", e) if kd in ("min", "max", "any", "all") else e

def nesting(text):
    """How deep parentheses and brackets go; the parser takes time exponential in it."""
    d = m = 0
    for c in text:
        if c in "([": d += 1
        elif c in ")]": d -= 1
        m = max(m, d)
    return m

def gen(seed, **prof):
    """The first program of the seed whose nesting is fit for the parser."""
    for k in range(50):
        p = G(seed * 64 + k, **prof).program()
        if nesting(p.source()) <= 7: return p
    return p

if __name__ == "__main__":
    import sys
    print(G(int(sys.argv[1])).program().source())
