"""Sessions of a host program: many calls into one module with one runtime."""
import random
import rnd
from ir import Prog

def val(r, t):
    if t == "n": return ["n", r.choice([-2, -1, 0, 1, 2, 3, 7])]
    if t == "b": return ["b", r.random() < 0.5]
    if t == "s": return ["s", r.choice(["", "a", "bc"])]
    if t[0] == "a": return ["a", [val(r, t[1]) for _ in range(r.choice([0, 1, 2, 3]))]]
    if t[0] == "o": return ["o", [[k, val(r, x)] for k, x in t[1]]]
    if t[0] == "opt": return ["none"] if r.random() < 0.3 else ["some", val(r, t[1])]
    if t[0] == "res": return ["ok", val(r, t[1])]
    raise ValueError(t)

def full(f):
    """the name by which a function is found"""
    if not f.muts: return f.name
    return "%s(%s)" % (f.name, ",".join("mut" if a in f.muts else "_" for a in f.args))

def bad(r, p):
    """a source that is to be rejected, with functions that are there already"""
    out = []
    for f in p.fns:
        if r.random() < 0.6:
            args = ", ".join(("mut " if a in f.muts else "") + a for a in f.args)
            out.append("fn %s(%s)%s {\n    probe(\"not this one\")\n%s}" % (f.name, args, " ->" if f.rets else "", "    return 12345\n" if f.rets else ""))
    wrong = r.choice(["fn zz() {\n    probe(nothing)\n}", "fn zz() {\n    x := \"a\"\n    y := x + 1\n}", "fn zz( {", "fn zz() {\n    no_such(1)\n}",
                      "fn zz(a) {\n    a = 1\n}", "fn zz() {\n    x := 1\n}\nfn zz() {\n}"])
    out.insert(r.randint(0, len(out)), wrong)
    return "\n".join(out) + "\n"

class Session:
    def __init__(self, seed, **prof):
        r = random.Random(seed * 7 + 3)
        self.p = rnd.gen(seed, **prof)
        self.maybe = "wild" in prof        # it may be that the checker rejects it
        self.ops, self.spec = [], []
        fs = self.p.fns
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.12:
                self.ops.append(["load", bad(r, self.p)]); self.spec.append(["bad"])
            elif x < 0.3:
                self.ops.append(["run"]); self.spec.append(["run"])
            elif x < 0.35:
                k = r.choice(["call", "ret"])
                self.ops.append([k, "nobody", []]); self.spec.append([k, 0, []])
            else:
                i = r.randrange(len(fs))
                f = fs[i]
                sig = f.sig[0] if f.name != "main" else []
                args = [val(r, t) for t in sig]
                if r.random() < 0.05: args = args + [["n", 1]] if r.random() < 0.5 else args[1:]
                k = "ret" if f.rets != (r.random() < 0.15) else "call"
                self.ops.append([k, full(f), args]); self.spec.append([k, i + 1, args])

    def job(self):
        return {"src": self.p.source(), "ops": self.ops}
    def table(self):
        j = self.p.table()
        j["ops"] = self.spec
        return j
    def show(self):
        import json
        return self.p.source() + "\n" + "\n".join(json.dumps(o) for o in self.ops)

class Fixed(Session):
    """functions and calls that are given"""
    def __init__(self, fns, calls):
        self.p, self.maybe = Prog(fns), False
        self.ops, self.spec = [], []
        ix = {f.name: i + 1 for i, f in enumerate(fns)}
        by = {f.name: f for f in fns}
        for c in calls:
            if c[0] == "bad":
                self.ops.append(["load", c[1]]); self.spec.append(["bad"])
            elif c[0] == "run":
                self.ops.append(["run"]); self.spec.append(["run"])
            else:
                self.ops.append([c[0], full(by[c[1]]) if c[1] in by else c[1], c[2]]); self.spec.append([c[0], ix.get(c[1], 0), c[2]])

def results():
    """what a function can hand over to the host, with lifetimes of every kind"""
    from ir import Fn, block, ret, var, arr, obj, item, I, K, if_, b, n, s, asg, decl, probe, prim, call
    A = ["a", [["n", 4], ["n", 5]]]
    O = ["o", [["x", ["n", 6]], ["y", ["a", [["n", 7]]]]]]
    fns = [
        Fn("id", ["a"], block(ret(var("a"))), lts={"a": "return"}),
        Fn("idx", ["a"], var("a"), lts={"a": "return"}, expr=True),
        Fn("fst", ["a", "b"], block(ret(var("a"))), lts={"a": "return"}),
        Fn("snd", ["a", "b"], block(ret(var("b"))), lts={"b": "return"}),
        Fn("wrap", ["a"], block(ret(arr(var("a"), n(1)))), lts={"a": "return"}),
        Fn("wrapo", ["a"], block(ret(obj(("k", var("a"))))), lts={"a": "return"}),
        Fn("deep", ["a"], block(ret(arr(arr(var("a")), obj(("z", arr(var("a"))))))), lts={"a": "return"}),
        Fn("at0", ["a"], block(ret(item("a", [I(0)]))), lts={"a": "return"}),
        Fn("atx", ["a"], block(ret(item("a", [K("y")]))), lts={"a": "return"}),
        Fn("asgd", ["a"], block(asg("=", "return", [], var("a")), probe(n(3))), lts={"a": "return"}),
        Fn("copy", ["a"], block(ret(prim("clone", var("a"))))),
        Fn("chg", ["a"], block(asg("=", "a", [], n(9)), ret(prim("clone", var("a")))), muts=["a"]),
        Fn("put", ["a", "b"], block(prim("push", var("a"), var("b")), ret(prim("clone", var("a")))), muts=["a"]),
        Fn("via", ["a"], block(ret(call("wrap", var("a")))), lts={"a": "return"}),
        Fn("void", ["a"], block(probe(var("a"))), rets=False),
        Fn("need", [], block(probe(var("cn"))), rets=False, cus=["cn"]),
        Fn("fails", ["a"], block(decl("cn", n(5), cur=True), decl("x", var("a")), probe(var("x")), decl("z", prim("boom", n(2))), ret(n(1))), tys={"a": "any"}),
        Fn("deepfail", ["a"], block(decl("cn", n(8), cur=True), decl("y", call("fails", var("a"))), ret(prim("clone", var("y")))), tys={"a": "any"}),
        Fn("main", [], block(decl("cn", n(2), cur=True), call("need"), probe(s("m"))), rets=False),
    ]
    fs = [f for f in fns if f.name not in ("deepfail", "main", "need", "void", "fails")]
    vals = [["n", 3], ["s", "q"], A, O, ["b", True], ["some", ["n", 2]], ["none"]]
    def args(f, v, w=["n", 8]):
        if f.name == "at0": v = A
        if f.name == "atx": v = O
        if f.name == "put": v = A
        return [v, w][:len(f.args)]
    between = [[], [["call", "fails", [["n", 1]]]], [["ret", "deepfail", [["n", 1]]]], [["run"]], [["call", "need", []]], [["ret", "void", [["n", 1]]]],
               [["call", "nobody", []]], [["ret", "nobody", []]], [["call", "id", []]], [["ret", "fst", [["n", 1]]]], [["ret", "id", [["n", 1], ["n", 2]]]],
               [["bad", "fn id(a) -> {\n    return 12345\n}\nfn oops() {\n    probe(nothing)\n}\n"]],
               [["bad", "fn main() {\n    probe(12345)\n}\nfn id(a: 'return) -> {\n    return ]5\n}\n"]],
               [["bad", "fn need() {\n    probe(12345)\n}\nfn wrap(a) -> {\n    return 1\n}\nfn u() {\n    x := \"a\"\n    y := x + 1\n}\n"]]]
    out = []
    for f in fs:
        out.append(Fixed(fns, [[k, f.name, args(f, v)] for v in vals for k in ("ret", "call")] + [["run"]]))
        for bt in between:
            for b2 in between:
                out.append(Fixed(fns, [["ret", f.name, args(f, ["n", 3])]] + bt + [["call", f.name, args(f, ["s", "q"])]] + b2 + [["ret", f.name, args(f, A)], ["call", "need", []], ["run"]]))
    return out
