"""Calls of host functions with every kind of value (C19)."""
import random
from data import cps, txt, plainnum
N, I, B, S, ANY, V4, M4 = ["num"], ["int"], ["bool"], ["str"], ["any"], ["vec4"], ["mat4"]
opt = lambda t: ["opt", t]
res = lambda t, u: ["res", t, u]
vec = lambda t: ["vec", t]
tup = lambda *ts: ["tup", list(ts)]
obj = lambda **fs: ["obj", [[cps(k), t] for k, t in fs.items()]]
P = obj(x=N, y=N)
Q = obj(p=P, name=S, tags=vec(S))
E = obj(on=opt(B), at=V4, any=ANY)
TYPES = dict(c_any=ANY, c_f64=N, c_f32=N, c_u32=I, c_usize=I, c_bool=B, c_string=S, c_astr=S, c_vec4=V4, c_mat4=M4,
             c_of=opt(N), c_os=opt(S), c_oob=opt(opt(B)), c_ova=opt(ANY), c_rfs=res(N, S), c_rsf=res(S, N), c_rov=res(opt(N), vec(S)),
             c_a2=tup(N, N), c_a3=tup(S, S, S), c_a4=tup(B, B, B, B), c_aa=tup(tup(N, N), tup(N, N)), c_an=tup(ANY, ANY, ANY),
             c_t2=tup(N, S), c_t3=tup(B, N, S), c_t4=tup(S, B, N, opt(N)), c_tt=tup(N, tup(B, N)),
             c_vf=vec(N), c_vs=vec(S), c_vb=vec(B), c_vu=vec(I), c_vvf=vec(vec(N)), c_vos=vec(opt(S)), c_ovb=opt(vec(B)), c_vt=vec(tup(N, B)), c_vv4=vec(V4), c_va=vec(ANY),
             c_p=P, c_q=Q, c_e=E, c_vp=vec(P), c_op=opt(P), c_rp=res(P, Q), c_a2p=tup(P, P))
for n_ in (2, 3, 4):
    for pre in ("p_f", "p_d", "i_f", "i_d", "i_tf", "i_td"): TYPES[pre + str(n_)] = ["part", n_]
WHOLE = {"i_u2": ["part", 2], "i_tu2": ["part", 2]}     # components are whole and positive
MULTI = {"g2": [N, S], "g3": [B, S, N], "g4": [N, N, N, N]}

NUMS = ["0", "1", "2", "7", "12", "0.5", "-3", "-0.25", "100000", "4096"]
STRS = ["", "a", "hello", "x y", "\u00e6", "q\"q", "1"]
def num(r, whole=False): return ["n", cps(r.choice([x for x in NUMS if not whole or ("-" not in x and "." not in x)]))]
def any_(r, d=2):
    k = r.randint(0, 10 if d > 0 else 4)
    if k < 2: return num(r)
    if k == 2: return ["b", r.random() < 0.5]
    if k == 3: return ["t", cps(r.choice(STRS))]
    if k == 4: return r.choice([["none"], fit(V4, r), fit(M4, r)])
    if k == 5: return ["some", any_(r, d - 1)]
    if k == 6: return [r.choice(["ok", "err"]), any_(r, d - 1)]
    if k < 9: return ["a", [any_(r, d - 1) for _ in range(r.randint(0, 3))]]
    ks = r.sample(["x", "y", "name", "on", "k"], r.randint(0, 3))
    return ["o", [[cps(a), any_(r, d - 1)] for a in sorted(ks)]]
def fit(t, r, d=2):
    k = t[0]
    if k == "any": return any_(r, d)
    if k == "num": return num(r)
    if k == "int": return num(r, True)
    if k == "bool": return ["b", r.random() < 0.5]
    if k == "str": return ["t", cps(r.choice(STRS))]
    if k in ("vec4", "part"): return ["v", [cps(r.choice(["0", "1", "2", "-3", "0.5", "7"])) for _ in range(4)]]
    if k == "mat4": return ["m", [cps(str((i * 7 + r.randint(0, 3)) % 11)) for i in range(16)]]
    if k == "opt": return ["none"] if r.random() < 0.25 else ["some", fit(t[1], r, d - 1)]
    if k == "res": return ["ok", fit(t[1], r, d - 1)] if r.random() < 0.5 else ["err", fit(t[2], r, d - 1)]
    if k == "vec": return ["a", [fit(t[1], r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))]]
    if k == "tup": return ["a", [fit(u, r, d - 1) for u in t[1]] + ([any_(r, 0)] if r.random() < 0.1 else [])]
    fs = [[f, fit(u, r, d - 1)] for f, u in t[1]] + ([[cps("zz"), any_(r, 0)]] if r.random() < 0.2 else [])
    return ["o", sorted(fs)]
def spoil(v, r):
    """change one place in a value"""
    if v[0] in ("a", "o") and v[1] and r.random() < 0.75:
        i = r.randrange(len(v[1]))
        k = r.random()
        if k < 0.2: return [v[0], v[1][:i] + v[1][i + 1:]]
        x = v[1][i]
        return [v[0], v[1][:i] + [spoil(x, r) if v[0] == "a" else [x[0], spoil(x[1], r)]] + v[1][i + 1:]]
    if v[0] in ("some", "ok", "err") and r.random() < 0.7: return [v[0], spoil(v[1], r)]
    return any_(r, 1)

class Prog:
    """source text; some parts of values become variables of their own"""
    def __init__(self, r, refs): self.r, self.refs, self.n, self.lines = r, refs, 0, []
    def fresh(self): self.n += 1; return "a%d" % self.n
    def expr(self, v, top=False):
        k = v[0]
        if k == "n": e = txt(v[1])
        elif k == "b": e = "true" if v[1] else "false"
        elif k == "t": e = '"' + txt(v[1]).replace("\\", "\\\\").replace('"', '\\"') + '"'
        elif k == "v": e = "(" + ", ".join(map(txt, v[1])) + ")"
        elif k == "m": e = "mat4 {" + "; ".join(",".join(txt(v[1][c * 4 + row]) for c in range(4)) for row in range(4)) + "}"
        elif k == "none": e = "none()"
        elif k in ("some", "ok", "err"): e = k + "(" + self.expr(v[1]) + ")"
        elif k == "a": e = "[" + ", ".join(self.expr(x) for x in v[1]) + "]"
        else: e = "{" + ", ".join(txt(f) + ": " + self.expr(x) for f, x in v[1]) + "}"
        if self.r.random() < self.refs:
            a = self.fresh()
            self.lines.append("%s := %s" % (a, e if k != "n" or e[0] != "-" else e))
            return a
        return e
class Job_:
    maybe = False
    def __init__(self, src, ops, vars_=()): self.src, self.prog, self.vars = src, ops, list(vars_)
    def job(self): return {"src": self.src, "conv": True}
    def table(self): return {"ops": self.prog, "vars": self.vars}
    def show(self): return self.src
def program(items, r, refs):
    """items: (function, types, values)"""
    p, ops = Prog(r, refs), []
    for f, ts, vs in items:
        es = [p.expr(v) for v in vs]
        x = p.fresh()
        L = p.lines
        if f == "v2":
            # void: only with values that fit
            L.append("v2(%s)" % ", ".join(es))
            ops.append(dict(op="conv", t=[tup(*ts)], v=[["a", vs]], single=True, void=True))
            continue
        if f.startswith("cur_"):
            L.append("%s := try %s_(%s)" % (x, f, es[0]))
        else:
            L.append("%s := try %s(%s)" % (x, f, ", ".join(es)))
        L += ["if is_ok(%s) {" % x, "    outd(some(unwrap(%s)))" % x, "} else {", "    outd(none())", "}"]
        ops.append(dict(op="conv", t=ts, v=vs, single=f not in MULTI, void=False))
    src = "fn main() {\n" + "".join("    " + l + "\n" for l in p.lines) + "}\n"
    for c in ("cur_f64", "cur_vf"):
        if c + "_" in src: src += "\nfn %s_(x) -> any {\n    ~ cn := x\n    return %s()\n}\n" % (c, c)
    return Job_(src, ops)
def pack(items, r, refs, n=8): return [program(items[i:i + n], r, refs) for i in range(0, len(items), n)]
ALL = dict(TYPES, cur_f64=N, cur_vf=vec(N))
def matrix():
    r = random.Random(7)
    vals = [["n", cps("1")], ["n", cps("0.5")], ["b", True], ["t", cps("a")], ["none"], ["some", ["n", cps("2")]], ["some", ["t", cps("q")]], ["ok", ["n", cps("3")]], ["err", ["t", cps("bad")]],
            ["ok", ["t", cps("3")]], ["err", ["n", cps("4")]], ["a", []], ["a", [["n", cps("1")]]], ["a", [["n", cps("1")], ["n", cps("2")]]], ["a", [["t", cps("s")]] * 3], ["a", [["b", True], ["b", False], ["b", False], ["b", True]]],
            ["a", [["n", cps("1")], ["t", cps("s")]]], ["a", [["b", False], ["n", cps("5")], ["t", cps("s")]]], ["v", [cps("1"), cps("2"), cps("3"), cps("4")]], fit(M4, r), ["o", []], ["o", [[cps("x"), ["n", cps("1")]], [cps("y"), ["n", cps("2")]]]],
            ["o", [[cps("x"), ["n", cps("1")]]]], ["o", [[cps("x"), ["n", cps("1")]], [cps("y"), ["t", cps("2")]]]], ["some", ["none"]], ["some", ["some", ["b", False]]]]
    items = [(f, [t], [v]) for f, t in ALL.items() for v in vals]
    items += [(f, [t], [fit(t, r)]) for f, t in ALL.items() for _ in range(12)]
    items += [(f, [t], [["v", [cps(str(r.randint(0, 9))) for _ in range(4)]]]) for f, t in WHOLE.items() for _ in range(8)]
    items += [(f, ts, [v if i == at else fit(t, r) for i, t in enumerate(ts)]) for f, ts in MULTI.items() for at in range(len(ts)) for v in vals]
    items += [("v2", [N, S], [num(r), ["t", cps(x)]]) for x in STRS]
    return pack(items, r, 0.0) + pack(items, r, 1.0)
def values(k, r):
    items = []
    fs = list(ALL.items()) + [(f, ts) for f, ts in MULTI.items()] * 3
    for _ in range(k):
        f, t = r.choice(fs)
        ts = t if f in MULTI else [t]
        vs = [fit(u, r, 3) for u in ts]
        if r.random() < 0.4:
            i = r.randrange(len(vs))
            vs[i] = spoil(vs[i], r)
        items.append((f, ts, vs))
    return pack(items, r, 0.4)
def objects(k, r):
    out = []
    for _ in range(k):
        vs, lines, ops = [], [], []
        alias = {}          # which objects are the same: two locks of one object would wait for ever
        nxt = [0]
        wrapped = {}
        def new(o, kind):
            x = "x%d" % len(vs)
            vs.append(x)
            if kind is None: nxt[0] += 1; alias[x] = nxt[0]
            else: alias[x] = kind
            return x
        def use(x):
            """x itself, or where it lies in a container"""
            if wrapped.get(x) and r.random() < 0.6: return r.choice(wrapped[x])
            return x
        for s in range(r.randint(4, 14)):
            c = r.random()
            if c < 0.25 or len(vs) < 2:
                n = r.randint(0, 9)
                c2 = r.random()
                if c2 < 0.8: x = new(0, None); lines.append("%s := mk(%d)" % (x, n)); ops.append(dict(op="mk", x=x, n=n, a=[]))
                elif c2 < 0.9: x = new(0, None); lines.append("%s := mk5()" % x); ops.append(dict(op="mk", x=x, n=5, a=[]))
                elif c2 < 0.95: x = new(0, -1); lines.append("%s := mki(%d)" % (x, n)); ops.append(dict(op="mki", x=x, n=n, a=[]))
                else: x = new(0, -1); lines.append("%s := dynv(%d)" % (x, n)); ops.append(dict(op="num", x=x, n=n, a=[]))
                continue
            good = [v for v in vs if alias[v] > 0]
            pool = vs if r.random() < 0.08 else (good or vs)
            y = r.choice(pool)
            others = [v for v in pool if alias[v] != alias[y]] or None
            c = r.random()
            if c < 0.15:
                x = new(0, alias[y]); how = r.choice(["%s", "clone(%s)", "dynv(%s)", "share(%s)"])
                lines.append("%s := %s" % (x, how % use(y))); ops.append(dict(op="cp", x=x, a=[y]))
            elif c < 0.27:
                a = "w%d" % len(lines)
                lines.append(r.choice(["%s := [%s]", "%s := [1, %s]", "%s := {k: %s}", "%s := [[%s]]"]) % (a, y))
                wrapped.setdefault(y, []).append(a + (".k" if "{" in lines[-1] else "[0][0]" if "[[" in lines[-1] else "[1]" if "[1," in lines[-1] else "[0]"))
            elif c < 0.42: lines.append("outn(rd(%s))" % use(y)); ops.append(dict(op="rd", a=[y]))
            elif c < 0.52: n = r.randint(0, 9); lines.append(r.choice(["set(%s, %d)", "poke(%s, %d)"]) % (use(y), n)); ops.append(dict(op="set", a=[y], n=n))
            elif c < 0.6: n = r.randint(0, 9); lines.append("outn(less(%s, %d))" % (use(y), n)); ops.append(dict(op="less", a=[y], n=n))
            elif c < 0.66: x = new(0, None); n = r.randint(0, 3); lines.append("%s := scale(%s, %d)" % (x, use(y), n)); ops.append(dict(op="scale", x=x, a=[y], n=n))
            elif others:
                z = r.choice(others)
                o = r.choice(["setby", "addby", "subby", "setref", "minus"])
                if o == "minus": x = new(0, None); lines.append("%s := minus(%s, %s)" % (x, use(y), use(z))); ops.append(dict(op=o, x=x, a=[y, z]))
                elif o in ("addby", "subby"): lines.append("outn(%s(%s, %s))" % (o, use(y), use(z))); ops.append(dict(op=o, a=[y, z]))
                else: lines.append("%s(%s, %s)" % (o, use(y), use(z))); ops.append(dict(op=o, a=[y, z]))
        for x in vs:
            if alias[x] > 0: lines.append("outn(rd(%s))" % x); ops.append(dict(op="rd", a=[x]))
        src = "fn main() {\n" + "".join("    " + l + "\n" for l in lines) + "}\n\nfn poke(a, n) {\n    set(a, n)\n}\n\nfn share(a) -> any {\n    return clone(a)\n}\n"
        out.append(Job_(src, ops, vs))
    return out
