"""Modules whose functions are listed (C27)."""
from data import cps, txt
SRC = '''fn list(fs: []) {
    want := [%s]
    outd(sift i len(fs) { clone(fs[i].name) })
    outd(sift i len(fs) {
        if fs[i].type != "loaded" { continue }
        clone(fs[i])
    })
    outd(sift i len(fs) {
        if fs[i].type != "external" { continue }
        if !any k len(want) { want[k] == fs[i].name } { continue }
        clone(fs[i])
    })
}
fn main() {
%s}
'''
WORDS = ["bool", "f64", "str", "vec4", "mat4", "link", "{}"]
def w(s): return ["w", cps(s)]
def ty(r, d=2):
    k = r.random()
    if k < 0.15: return ["any"]
    if d == 0 or k < 0.5: return w(r.choice(WORDS))
    if k < 0.9: 
        h = r.choice(["arr", "arr", "opt", "res", "thr", "in"])
        return [h, ["any"] if r.random() < 0.2 and h != "arr" else ty(r, d - 1)]
    if k < 0.95: return ["clo", [ty(r, d - 1) for _ in range(r.randint(0, 2))], ty(r, d - 1)]
    return ["sec", w(r.choice(["bool", "f64"]))]
def desc(t):
    if t[0] in ("any", "void"): return t[0]
    if t[0] == "w": return txt(t[1])
    if t[0] == "arr": return "[]" if t[1] == ["any"] else "[" + desc(t[1]) + "]"
    if t[0] == "clo": return "\\(" + ", ".join(map(desc, t[1])) + ") -> " + desc(t[2])
    if t[0] == "adhoc": return txt(t[1]) + " " + desc(t[2])
    return t[0] if t[1] == ["any"] else t[0] + "[" + desc(t[1]) + "]"
def arg(n, t, mut=False, lt=""): return {"name": cps(n), "mut": mut, "lt": cps(lt), "ty": t}
def fn(r, name):
    ns = r.sample(["a", "b", "xs", "y2", "_z", "long_name"], r.choice([0, 1, 1, 2, 3]))
    args = []
    for i, n in enumerate(ns):
        lt = r.choice(ns[:i] + ["return"]) if r.random() < 0.25 else ""
        args.append(arg(n, ty(r) if r.random() < 0.9 else ["any"], r.random() < 0.25, lt))
    if r.random() < 0.1 and args: args[0]["ty"] = ["adhoc", cps(r.choice(["Meter", "Foo"])), w("f64")]
    ret = ["void"] if r.random() < 0.5 else ty(r, 1) if not args or all(not a["lt"] for a in args) else ["any"]
    if ret == ["void"]:
        for a in args:
            if a["lt"] == cps("return"): a["lt"] = []
    return {"name": cps(name), "args": args, "ret": ret}
def source(fns, imports_any=False):
    o = []
    for f in fns:
        as_ = []
        for a in f["args"]:
            s = ("mut " if a["mut"] else "") + txt(a["name"])
            t = desc(a["ty"])
            lt = "'" + txt(a["lt"]) + " " if a["lt"] else ""
            as_.append(s + (": " + (lt + ("" if t == "any" else t)).strip() if lt or t != "any" else ""))
        ret = "" if f["ret"] == ["void"] else " -> " + ("" if f["ret"] == ["any"] else desc(f["ret"]) + " ")
        body = "{}" if f["ret"] == ["void"] else "{ return dynv(0) }"
        o.append("fn %s(%s)%s%s" % (txt(f["name"]), ", ".join(as_), ret if ret else " ", body))
    return "\n".join(o) + "\n"
def esc(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
LIB = [{"name": cps(n), "args": [arg("arg%d" % i, t, m, lt) for i, (t, m, lt) in enumerate(as_)], "ret": ret} for n, as_, ret in [
    ("clone", [(["any"], 0, "")], ["any"]), ("len", [(["arr", ["any"]], 0, "")], w("f64")), ("push", [(["arr", ["any"]], 1, ""), (["any"], 0, "")], ["void"]),
    ("push_ref", [(["arr", ["any"]], 1, ""), (["any"], 0, "arg0")], ["void"]), ("insert_ref", [(["arr", ["any"]], 1, ""), (w("f64"), 0, ""), (["any"], 0, "arg0")], ["void"]),
    ("trim", [(w("str"), 0, "")], w("str")), ("chars", [(w("str"), 0, "")], ["arr", w("str")]), ("random", [], w("f64")), ("parse_number", [(w("str"), 0, "")], ["opt", w("f64")]),
    ("is_err", [(["res", ["any"]], 0, "")], w("bool")), ("inv", [(w("mat4"), 0, "")], w("mat4")), ("why", [(["sec", w("bool")], 0, "")], ["arr", ["any"]]),
    ("has", [(w("{}"), 0, ""), (w("str"), 0, "")], w("bool")), ("println", [(["any"], 0, "")], ["void"])]]
for f in LIB:
    for a in f["args"]: a["mut"] = bool(a["mut"])
def full(f): return txt(f["name"]) + ("(" + ",".join("mut" if a["mut"] else "_" for a in f["args"]) + ")" if any(a["mut"] for a in f["args"]) else "")
class List:
    def __init__(self, mods): self.mods = mods
    def src(self):
        b = ""
        for i, m in enumerate(self.mods):
            b += "    m%d := unwrap(module(in: %s, string: %s, imports: [%s]))\n" % (i, esc("m%d" % i), esc(source(m["fns"])), ", ".join("m%d" % (k - 1) for k in m["imports"]))
            b += "    list(functions(module: m%d))\n" % i
        return SRC % (", ".join(esc(full(f)) for f in LIB), b)
    def job(self): return {"src": self.src(), "files": {}}
    def table(self): return {"mods": self.mods, "lib": LIB}
    def show(self): return self.src()
def rand(k, r):
    out = []
    for i in range(k):
        mods, n = [], 0
        for m in range(r.choice([1, 1, 2, 3])):
            fns = []
            names = r.sample(["f", "g", "zed", "Abc", "push2", "a_b", "fo", "foo", "foo2", "_x", "len2"], r.randint(0, 5))
            for nm in names: fns.append(fn(r, nm))
            mods.append({"imports": r.sample(range(1, m + 1), r.randint(0, m)), "fns": fns})
        out.append(List(mods))
    return out
