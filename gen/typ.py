"""Programs for the type checker."""
import itertools, random

ANY, VOID, BOOL, F64, STR, VEC4, MAT4, LINK, OBJ = ([x] for x in "any void bool f64 str vec4 mat4 link obj".split())
SB, SF = ["sec", BOOL], ["sec", F64]
def box(b, t): return [b, t]
def ad(n, t): return ["ad", n, t]
def clos(ts, r): return ["clos", list(ts), r]

def show(t):
    k = t[0]
    if k == "obj": return "{}"
    if k == "arr": return "[]" if t[1] == ANY else "[%s]" % show(t[1])
    if k in ("opt", "res", "thr", "in"): return k if t[1] == ANY else "%s[%s]" % (k, show(t[1]))
    if k == "sec": return "sec[%s]" % show(t[1])
    if k == "ad": return "%s %s" % (t[1], show(t[2]))
    if k == "clos": return "\\(%s) -> %s" % (", ".join(show(x) for x in t[1]), show(t[2]))
    return k

# expressions
def E(k, a=(), q=False, **kw): return dict(k=k, a=list(a), q=q, **kw)
LITS = {"f64": "2", "bool": "true", "str": '"a"', "vec4": "(1, 2)", "link": "link { 1 }", "obj": "({a: 1})", "arr": "([1])", "mat4": "mat4 {1,0;0,1}",
        "seb": "(any i 2 { i == 1 })", "sef": "(min i 2 { i })"}
def lit(t, src=None):
    if src is None: src = LITS[t[0]]
    return E("lit", ty=t, src=src)
def var(x, q=False): return E("var", q=q, x=x)
def op(f, *a, q=False): return E("op", a, q, f=f)
def call(f, *a, q=False): return E("call", a, q, f=f)
def decl(x, e): return dict(k="decl", x=x, a=[e], q=False)
def ret(e): return dict(k="ret", a=[e], q=False)

MUTS = {"push", "insert", "pop", "remove", "reverse", "clear", "swap"}
INFIX = {"<", "<=", ">", ">=", "==", "!=", "&&", "||", "+", "-", "*", "/", "%", "^", "*."}
def src(e, ind=""):
    k, a = e["k"], [src(x, ind) for x in e["a"]]
    q = "?" if e["q"] else ""
    if k == "lit": return e["src"]
    if k == "var": return e["x"] + q
    if k == "item": return e["x"] + "[0]" + q
    if k == "vec": return "(" + ", ".join(a) + ")"
    if k == "op":
        f = e["f"]
        if f in INFIX: return "(%s %s %s)" % (a[0], f, a[1])
        if f == "!": return "(!%s)" % a[0]
        if f == "neg": return "(-%s)" % a[0]
        if f in ("minf", "maxf"): f = f[:3]
        if f == "join": return "join(thread: %s)%s" % (a[0], q)
        if f in MUTS: a[0] = "mut " + a[0]
        return "%s(%s)%s" % (f, ", ".join(a), q)
    if k == "call": return "%s(%s)%s" % (e["f"], ", ".join(a), q)
    if k == "go": return "go %s(%s)" % (e["f"], ", ".join(a))
    if k == "in": return "in " + e["f"]
    if k == "callc": return "\\%s(%s)%s" % (e["x"], ", ".join(a), q)
    if k == "clos": return "(\\(%s) = %s)" % (", ".join(arg(x, t) for x, t in zip(e["args"], e["tys"])), src(e["body"], ind))
    if k == "if": return "if %s {\n%s%s} else {\n%s%s}" % (a[0], blk(e["th"], ind + "    "), ind, blk(e["el"], ind + "    "), ind)
    if k == "sift": return "sift i 2 {\n%s%s}" % (blk(e["body"], ind + "    "), ind)
    raise KeyError(k)
def bare(e, ind=""):
    """Without the parentheses around everything: `return (` is the call of a function."""
    t = src(e, ind)
    return t[1:-1] if t[0] == "(" and (e["k"] in ("op", "clos") or e["k"] == "lit" and e["ty"][0] in ("obj", "arr", "sec")) else t
def stm(s, ind):
    if s["k"] == "decl": return "%s := %s" % (s["x"], src(s["a"][0], ind))
    if s["k"] == "asg": return "%s %s %s" % (s["x"], s["op"], src(s["a"][0], ind))
    if s["k"] == "retv": return "return"
    if s["k"] == "ret":
        return "return " + bare(s["a"][0], ind)
    return src(s, ind)
def blk(ss, ind): return "".join(ind + stm(s, ind) + "\n" for s in ss)
def arg(x, t): return x if t == ANY else "%s: %s" % (x, show(t))

class Fn:
    def __init__(self, name, args=(), ret=VOID, body=(), ext=(), ex=False, lts=None):
        self.name, self.args, self.ret, self.body, self.ext, self.ex = name, list(args), ret, list(body), list(ext), ex
        self.lts = lts or {}
    def source(self):
        def a(x, t):
            l = self.lts.get(x)
            return arg(x, t) if not l else "%s: '%s %s" % (x, l, show(t)) if t != ANY else "%s: '%s" % (x, l)
        h = "fn %s(%s)" % (self.name, ", ".join(a(x, t) for x, t in self.args))
        exts = "".join("    %s(%s) -> %s%s\n" % ("all %s { " % ", ".join(vs) if vs else "", ", ".join(show(t) for t in ts), show(r), " }" if vs else "") for vs, ts, r in self.ext)
        if self.ex: return "%s = %s\n%s" % (h[3:], src(self.body[0]), exts)
        r = "" if self.ret == VOID else " ->" if self.ret == ANY else " -> " + show(self.ret)
        return "%s%s {\n%s}\n%s" % (h, r, blk(self.body, "    "), exts)
    def table(self):
        return dict(name=self.name, args=[x for x, _ in self.args], tys=[t for _, t in self.args], ret=self.ret, body=self.body, ex=self.ex,
                    ext=[dict(vars=list(v), args=t, ret=r) for v, t, r in self.ext])

class TProg:
    def __init__(self, fns): self.fns = list(fns)
    def source(self): return "".join(f.source() for f in self.fns) + "fn main() {\n}\n"
    def table(self): return {"fns": [f.table() for f in self.fns] + [Fn("main").table()]}

BASE = [ANY, BOOL, F64, STR, VEC4, MAT4, LINK, OBJ]
def types1():
    out = BASE + [SB, SF]
    out += [box(b, t) for b in ("arr", "opt", "res", "thr", "in") for t in (ANY, BOOL, F64, STR)]
    out += [ad(n, t) for n in ("A", "B") for t in (ANY, F64, STR, OBJ)]
    out += [clos([], F64), clos([F64], F64), clos([F64], STR), clos([STR], F64), clos([ANY], ANY), clos([F64, F64], F64)]
    out += [box("arr", box("arr", F64)), box("arr", box("opt", STR)), box("opt", box("arr", F64)), box("res", box("arr", ANY)), box("arr", ad("A", F64)),
            box("arr", ad("B", F64)), ad("A", box("arr", F64)), ad("A", ad("B", F64)), ad("A", ad("B", STR)), ad("B", ad("A", F64)), box("arr", SF), box("opt", SB), clos([F64], box("arr", F64)), clos([ad("A", F64)], F64),
            clos([clos([F64], F64)], F64)]
    return out

def sink(t, name="f"): return Fn(name, [("x", t)])

def goes():
    out = []
    T = types1()
    for A in T:
        for B in T:
            out.append(TProg([sink(A), Fn("g", [("y", B)], body=[call("f", var("y"))])]))
    return out

def inside():
    """Pairs of types inside of other types."""
    T = [ANY, BOOL, F64, STR, OBJ, SB, SF, ad("A", F64), ad("B", F64), ad("A", STR), box("arr", F64), box("opt", ANY), clos([], F64)]
    C = [lambda t: box("arr", t), lambda t: box("opt", t), lambda t: box("res", t), lambda t: box("thr", t), lambda t: box("in", t),
         lambda t: ad("A", t), lambda t: clos([t], F64), lambda t: clos([F64, t], F64), lambda t: clos([t, STR], STR), lambda t: clos([], t), lambda t: clos([F64], t),
         lambda t: box("arr", box("arr", t)), lambda t: box("opt", box("res", t)), lambda t: clos([clos([t], F64)], F64), lambda t: clos([clos([], t)], F64),
         lambda t: ad("A", ad("B", t)), lambda t: box("arr", clos([t], t)), lambda t: ad("A", clos([t], F64)), lambda t: box("thr", box("arr", t)),
         lambda t: clos([ad("A", t)], F64), lambda t: clos([box("arr", t)], box("arr", t))]
    out = []
    for c in C:
        for A in T:
            for B in T:
                out.append(TProg([sink(c(A)), Fn("g", [("y", c(B))], body=[call("f", var("y"))])]))
                if A != B: out.append(TProg([Fn("g", [("y", c(B))], c(A), [ret(var("y"))], lts={"y": "return"})]))
    for A in T:
        for B in T:
            for X in T[:6]: out.append(TProg([sink(clos([A, X], X)), Fn("g", [("y", clos([B, X], X))], body=[call("f", var("y"))])]))
    return out

def goes2():
    """The same relation where it is used elsewhere."""
    out = []
    T = types1()
    for A in T:
        for B in T:
            out.append(TProg([Fn("g", [("y", B)], A, [ret(var("y"))], lts={"y": "return"})]))
            out.append(TProg([Fn("g", [("y", A), ("z", B)], body=[decl("k", E("if", [lit(BOOL)], th=[var("y")], el=[var("z")]))])]))
            out.append(TProg([sink(A), Fn("mk", [], B, [ret(op("unwrap", op("none")))]), Fn("g", [], body=[call("f", call("mk"))])]))
            out.append(TProg([sink(A), Fn("g", [("y", B)], body=[decl("k", var("y")), decl("m", var("k")), call("f", var("m"))])]))
            out.append(TProg([Fn("h", [("a", A)], ANY, [ret(op("clone", var("a")))], ext=[([], [B], F64)])]))
            out.append(TProg([Fn("h", [("a", F64)], A, [ret(op("clone", var("a")))] , ext=[([], [F64], B)])]))
            out.append(TProg([sink(A), Fn("g", [("y", B)], body=[call("f", E("if", [lit(BOOL)], th=[var("y")], el=[var("y")]))])]))
            out.append(TProg([sink(A), Fn("g", [("y", box("opt", B))], box("opt", ANY), [call("f", var("y", q=True)), ret(op("none"))])]))
            out.append(TProg([sink(A), Fn("g", [("y", clos([F64], B))], body=[call("f", E("callc", [lit(F64)], x="y"))])]))
            out.append(TProg([sink(A), Fn("mk", [], B, [ret(op("unwrap", op("none")))]), Fn("ge", [], ex=True, body=[call("mk")]), Fn("g", [], body=[call("f", call("ge"))])]))
            if B[0] != "thr": out.append(TProg([sink(box("thr", A)), Fn("mk", [], B, [ret(op("unwrap", op("none")))]), Fn("g", [], body=[call("f", E("go", [], f="mk"))])]))
            out.append(TProg([sink(box("arr", A)), Fn("g", [("y", B)], body=[call("f", E("sift", [], body=[var("y")]))])]))
            out.append(TProg([sink(clos([A], A)), Fn("mk", [], B, [ret(op("unwrap", op("none")))]), Fn("g", [], body=[call("f", E("clos", [], args=["y"], tys=[B], body=call("mk")))])]))
    return out

OPT_, ARR_ = (lambda t: box("opt", t)), (lambda t: box("arr", t))
LIB = {"x": [VEC4], "y": [VEC4], "z": [VEC4], "w": [VEC4], "det": [MAT4], "inv": [MAT4], "s": [VEC4, F64], "rv": [MAT4, F64], "cv": [MAT4, F64], "rx": [MAT4], "cy": [MAT4],
       "sqrt": [F64], "sin": [F64], "abs": [F64], "floor": [F64], "round": [F64], "atan2": [F64, F64], "is_nan": [F64], "clone": [ANY], "str": [ANY], "typeof": [ANY],
       "trim": [STR], "trim_left": [STR], "trim_right": [STR], "parse_number": [STR], "println": [ANY], "some": [ANY], "none": [], "ok": [ANY], "err": [ANY],
       "is_ok": [box("res", ANY)], "is_err": [box("res", ANY)], "unwrap": [ANY], "minf": [ARR_(F64)], "maxf": [ARR_(F64)], "why": [SB], "where": [SF],
       "explain_why": [BOOL, ANY], "explain_where": [F64, ANY], "len": [ARR_(ANY)], "keys": [OBJ], "has": [OBJ, STR], "chars": [STR], "head": [LINK], "tip": [LINK],
       "unwrap_or": [ANY, ANY], "unwrap_err": [ANY], "next": [box("in", ANY)], "push": [ARR_(ANY), ANY], "insert": [ARR_(ANY), F64, ANY], "pop": [ARR_(ANY)],
       "remove": [ARR_(ANY), F64], "reverse": [ARR_(ANY)], "clear": [ARR_(ANY)], "swap": [ARR_(ANY), F64, F64],
       "tail": [LINK], "neck": [LINK], "is_empty": [LINK], "join": [box("thr", ANY)]}
PROBE = [BOOL, F64, STR, VEC4, MAT4, LINK, OBJ, SB, SF, ARR_(F64), ARR_(STR), OPT_(F64), OPT_(STR), box("res", STR), ad("A", F64), ad("B", F64)]

VOIDS = {"println", "push", "insert", "reverse", "clear", "swap"}
def library():
    out = []
    T = BASE + [SB, SF, ARR_(ANY), ARR_(F64), ARR_(STR), OPT_(F64), box("res", F64), box("thr", F64), ad("A", F64), ad("A", STR), clos([], F64), box("in", ANY), box("in", ARR_(ANY))]
    for f, ps in LIB.items():
        for i in range(len(ps)):
            for t in T:
                args = [("a%d" % k, t if k == i else p) for k, p in enumerate(ps)]
                e = op(f, *[var(a) for a, _ in args])
                pre = []
                if f in MUTS:
                    e["a"][0] = var("m")
                    pre = [decl("m", var("a0"))]
                out.append(TProg([Fn("g", args, body=pre + [e if f in VOIDS else decl("k", e)])]))
        if f in VOIDS or f in MUTS: continue
        for r in PROBE:
            args = [("a%d" % k, p) for k, p in enumerate(ps)]
            out.append(TProg([sink(r), Fn("g", args, body=[call("f", op(f, *[var(a) for a, _ in args]))])]))
            if f in ("parse_number", "some", "ok", "none", "head", "tip"):
                out.append(TProg([sink(r), Fn("g", args, box("opt" if f not in ("ok",) else "res", ANY), body=[call("f", op(f, *[var(a) for a, _ in args], q=True)), ret(op("none" if f != "ok" else "ok", *([] if f != "ok" else [lit(F64)])))])]))
    return out

OPS = ["<", "<=", ">", ">=", "==", "!=", "&&", "||", "+", "-", "*", "/", "%", "^", "*."]
OT = [ANY, BOOL, F64, STR, VEC4, MAT4, LINK, OBJ, SB, SF, ARR_(ANY), ARR_(F64), OPT_(F64), ad("A", F64), ad("B", F64), ad("A", STR), ad("A", VEC4), ad("A", BOOL), ad("A", ANY), clos([], F64)]
def operators(rng, per):
    out = []
    for o in OPS:
        for a in OT:
            for b in OT:
                for r in rng.sample(PROBE, per) + [ANY]:
                    out.append(TProg([sink(r), Fn("g", [("y", a), ("z", b)], body=[call("f", op(o, var("y"), var("z")))])]))
    for o in ("!", "neg"):
        for a in OT:
            for r in PROBE + [ANY]:
                out.append(TProg([sink(r), Fn("g", [("y", a)], body=[call("f", op(o, var("y")))])]))
    return out

def assigns():
    """Assignment operators, results that nobody uses, returns, conditions."""
    out = []
    for o in ("+=", "-=", "*=", "=", "/="):
        for a in OT:
            for b in OT:
                out.append(TProg([Fn("g", [("y", a), ("z", b)], body=[decl("k", var("y")), dict(k="asg", x="k", op=o, a=[var("z")], q=False)])]))
    B = [var("y"), op("clone", var("y")), call("vo"), call("nu"), lit(F64), op("println", lit(F64)), E("if", [lit(BOOL)], th=[var("y")], el=[var("y")]),
         E("if", [lit(BOOL)], th=[call("vo")], el=[call("vo")]), E("if", [lit(BOOL)], th=[call("vo")], el=[call("nu")]), E("if", [lit(BOOL)], th=[call("nu")], el=[call("vo")]),
         op("+", lit(F64), lit(F64)), decl("k", call("nu")), decl("k", call("vo")), E("callc", [], x="c"), ret(lit(F64)), ret(lit(STR)), ret(call("nu")), ret(call("vo")), dict(k="retv", a=[], q=False)]
    base = [Fn("vo"), Fn("nu", [], F64, [ret(lit(F64))])]
    for r in (VOID, ANY, F64, STR, BOOL, ad("A", F64), ["opt", F64]):
        for s1 in B:
            out.append(TProg(base + [Fn("g", [("y", F64), ("c", clos([], F64))], r, [s1])]))
            for s2 in B:
                if s1["k"] in ("ret", "retv"): continue
                out.append(TProg(base + [Fn("g", [("y", F64), ("c", clos([], F64))], r, [s1, s2])]))
                out.append(TProg(base + [Fn("g", [("y", F64), ("c", clos([], F64))], r, [E("if", [lit(BOOL)], th=[s1], el=[s2])])]))
                out.append(TProg(base + [Fn("g", [("y", F64), ("c", clos([], F64))], r, [E("if", [lit(BOOL)], th=[s1], el=[s2]), ret(lit(F64))])]))
    for t in types1():
        out.append(TProg([Fn("g", [("y", t)], body=[decl("k", E("if", [var("y")], th=[lit(F64)], el=[lit(F64)]))])]))
        out.append(TProg([Fn("g", [("y", t)], body=[decl("k", E("vec", [var("y"), lit(F64)]))])]))
        out.append(TProg([Fn("g", [("y", t)], body=[decl("k", E("callc", [lit(F64)], x="y"))])]))
        out.append(TProg([Fn("g", [("y", t)], body=[decl("k", E("clos", [], args=["u"], tys=[t], body=lit(F64))), decl("m", E("callc", [lit(F64)], x="k"))])]))
    return out

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.noise = self.r.choice([0.0, 0.01, 0.03, 0.08])
    def ty(self, d=1):
        r = self.r
        x = r.random()
        if d and x < 0.35:
            k = r.choice(["arr", "opt", "res", "ad", "ad", "clos", "arr"])
            if k == "ad": return ad(r.choice("AB"), self.ty(d - 1) if r.random() < 0.4 else F64)
            if k == "clos": return clos([self.ty(0) for _ in range(r.randint(0, 2))], self.ty(d - 1))
            return box(k, self.ty(d - 1))
        return r.choice([ANY, BOOL, F64, F64, STR, VEC4, LINK, OBJ, BOOL, STR])
    def lit(self, t):
        r = self.r
        k = t[0]
        if k == "ad": return self.lit(t[2])
        if k == "any": return self.lit(r.choice([BOOL, F64, STR]))
        if k == "arr": return lit(["arr", ANY], "([1])") if r.random() < 0.9 else lit(F64)
        if k == "sec": return lit(SB, LITS["seb"]) if t == SB else lit(SF, LITS["sef"])
        if k == "opt": return op("none") if r.random() < 0.3 else op("some", self.lit(t[1]))
        if k == "res": return op("ok", self.lit(t[1])) if r.random() < 0.6 else op("err", lit(STR))
        if k == "clos":
            xs = ["c%d%d" % (self.n, i) for i in range(len(t[1]))]
            self.n += 1
            return E("clos", [], args=xs, tys=list(t[1]), body=self.lit(t[2]))
        return lit(t) if k in LITS else lit(F64)
    def expr(self, env, t, d):
        """Something of about the type t."""
        r = self.r
        if r.random() < self.noise: t = self.ty()
        vs = [x for x, u in env if u == t]
        if vs and r.random() < 0.6: return var(r.choice(vs))
        if d <= 0: 
            if env and r.random() < 0.15: return var(r.choice(env)[0])
            return self.lit(t)
        x = r.random()
        fs = [f for f in self.fns if f.ret == t or any(e[2] == t for e in f.ext)]
        if fs and x < 0.4:
            f = r.choice(fs)
            return self.call(f, env, d)
        if x < 0.5: return E("if", [self.expr(env, BOOL, d - 1)], th=[self.expr(env, t, d - 1)], el=[self.expr(env, t, d - 1)]) if d > 1 else self.lit(t)
        if t in (F64, VEC4, BOOL, STR, LINK, ANY) or t[0] == "ad":
            if t == BOOL and x < 0.75:
                u = r.choice([F64, STR, F64, SF])
                return op(r.choice(["<", "==", ">=", "!="]), self.expr(env, u, d - 1), self.expr(env, u, d - 1))
            if t == BOOL: return op(r.choice(["&&", "||"]), self.expr(env, r.choice([BOOL, SB]), d - 1), self.expr(env, BOOL, d - 1))
            u, w = t, t
            if t == VEC4 and x < 0.7: u = F64
            o = r.choice(["+", "-", "*", "/"]) if t not in (STR, LINK) else "+"
            return op(o, self.expr(env, u, d - 1), self.expr(env, w, d - 1))
        return self.lit(t)
    def call(self, f, env, d):
        tys = [t for _, t in f.args]
        if f.ext and self.r.random() < 0.8: tys = [t for t in self.r.choice(f.ext)[1]]
        return call(f.name, *[self.expr(env, t if not (t[0] == "ad" and t[1] in "TU") else ad(self.r.choice("AB"), t[2]) if self.r.random() < 0.7 else t[2], d - 1) for t in tys])
    def prog(self):
        r = self.r
        self.fns = []
        for i in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.35:
                nargs = r.randint(1, 2)
                exts = []
                for _ in range(r.randint(1, 3)):
                    if r.random() < 0.5:
                        T = lambda: ad("T", r.choice([F64, VEC4, STR, F64])) if r.random() < 0.75 else self.ty(0)
                        exts.append((["T"], [T() for _ in range(nargs)], T()))
                    else: exts.append(([], [self.ty(1) for _ in range(nargs)], self.ty(1)))
                f = Fn("e%d" % i, [("x%d" % n, ANY if r.random() < 0.96 else self.ty(0)) for n in range(nargs)], ANY, [], exts)
                f.body = [ret(op("clone", var("x0")))]
            else:
                f = Fn("g%d" % i, [("x%d" % n, self.ty()) for n in range(r.randint(0, 2))], r.choice([VOID, self.ty(), self.ty()]))
                env = list(f.args)
                for s in range(r.randint(1, 3)):
                    t = self.ty()
                    vf = [g for g in self.fns if g.ret == VOID]
                    if vf and r.random() < 0.6: f.body.append(self.call(r.choice(vf), env, 2))
                    else:
                        f.body.append(decl("v%d" % s, self.expr(env, t, 2)))
                        env.append(("v%d" % s, t))
                if f.ret != VOID: f.body.append(ret(self.nolife(self.expr(env, f.ret, 2), f.ret)))
            self.fns.append(f)
        return TProg(self.fns)
    def nolife(self, e, t):
        """What is returned has no lifetime: literals and calculations only."""
        if e["k"] not in ("op", "call", "lit", "clos"): e = self.lit(t)
        return e if bare(e)[0] != "(" else op("unwrap", op("none"))

def rand(seeds): return [G(s).prog() for s in seeds]
