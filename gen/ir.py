"""Programs as trees: one tree gives both the Dyon source text that the
implementation loads and the node table that the TLA+ specification runs.

A node is a dict with the fields that spec/Dyon.tla reads; children are nested
nodes.  Fields whose name starts with "_" only matter for the source text."""

import re
MARK = None
def mark(d, t):
    if MARK is None: return t
    MARK.append(d)
    return "\x01%d\x01%s\x02%d\x02" % (len(MARK) - 1, t, len(MARK) - 1)

CHILD1 = ("th", "el", "st", "en", "body", "it")

# ---------------------------------------------------------------- builders

def lit(v): return {"k": "lit", "v": v}
def n(i): return lit(["n", i])
def b(x): return lit(["b", bool(x)])
def s(x): return lit(["s", x])
def var(x): return {"k": "var", "x": x}
PARTS = ("floor2", "ceil2", "round2", "floor4", "ceil4", "round4")       # of a half or a quarter
NAMED = {"mvp": ["model", "view", "projection"], "ortho": ["pos", "right", "up", "forward"]}
def law(text): return {"k": "prim", "op": "law", "a": [], "_text": text}
def prim(op, *a): return {"k": "prim", "op": op, "a": list(a)}
def arr(*a): return {"k": "arr", "a": list(a)}
def fill(v, m): return {"k": "fill", "a": [v, m]}
def vec4(*a): return {"k": "vec4", "a": list(a)}
def vecn(*a):
    """Components that are left out are 0."""
    return {"k": "vec4", "a": list(a) + [n(0)] * (4 - len(a)), "_len": len(a)}
def swz(sw, e): return {"k": "swz", "ix": ["xyzw".index(c) + 1 for c in sw], "a": [e], "_sw": sw}
def unvec(k, mk, x="i"):
    """vec4 i e: e with the number for i, for each component."""
    return {"k": "vec4", "a": [mk(n(i)) for i in range(k)] + [n(0)] * (4 - k), "_un": (k, x, mk(var(x)))}
def matn(*a):
    """Rows that are left out are those of the unit matrix."""
    unit = [vec4(*[n(int(i == j)) for j in range(4)]) for i in range(4)]
    return {"k": "mat4", "a": list(a) + unit[len(a):], "_len": len(a)}
def mat4(*a): return {"k": "mat4", "a": list(a)}
def obj(*kv): return {"k": "obj", "ks": [k for k, _ in kv], "a": [v for _, v in kv]}
def link(*a): return {"k": "link", "a": list(a)}
def block(*a): return {"k": "block", "a": list(a)}
def if_(c, th, el=None): return {"k": "if", "a": [c], "th": th, "el": el}
def for_(init, cond, step, body, lb=""):
    return {"k": "for", "a": [init, cond, step, body], "lb": lb}
def loop(body, lb=""): return for_(None, None, None, body, lb)
def forn(kd, x, st, en, body, lb="", a=(), pk=False, **kw):
    d = {"k": "forn", "kd": kd, "x": x, "lb": lb, "st": st, "en": en, "body": body, "a": list(a), "pk": pk,
         "inf": bool(kw.get("infer"))}
    d.update({"_" + k: v for k, v in kw.items()})
    return d
def forin(kd, x, it, body, lb="", a=(), pk=False):
    return {"k": "forin", "kd": kd, "x": x, "lb": lb, "it": it, "body": body, "a": list(a), "pk": pk}
def brk(lb=""): return {"k": "brk", "lb": lb}
def cont(lb=""): return {"k": "cont", "lb": lb}
def ret(v): return {"k": "ret", "a": [v]}
def retv(): return {"k": "retv"}
def decl(x, v, cur=False): return {"k": "decl", "x": x, "cur": cur, "a": [v]}
def K(x): return ("k", x)
def I(x): return ("i", x)
def E(e): return ("e", e)
def _ids(ids): return [list(i[:2]) if i[0] != "e" else ["e"] for i in ids]
def asg(op, x, ids, v):
    return {"k": "asg", "op": op, "x": x, "ids": _ids(ids), "a": [v] + [i[1] for i in ids if i[0] == "e"]}
def item(x, ids, tries=()):
    return {"k": "item", "x": x, "ids": _ids(ids), "tries": list(tries), "a": [i[1] for i in ids if i[0] == "e"]}
def call(f, *a, **kw):
    d = {"k": "call", "f": f, "a": list(a)}
    d.update({"_" + k: v for k, v in kw.items()})
    return d
def callc(x, ids, *a, **kw):
    d = {"k": "callc", "x": x, "ids": _ids(ids), "a": list(a)}
    d.update({"_" + k: v for k, v in kw.items()})
    return d
def clos(args, body, cus=(), grabs=(), **kw):
    """grabs: list of (id, expr); the body refers to them by grab(id)."""
    d = {"k": "clos", "args": list(args), "rets": True, "cus": list(cus), "body": body,
         "gs": [g for g, _ in grabs], "a": [e for _, e in grabs]}
    d.update({"_" + k: v for k, v in kw.items()})
    d["_grabs"] = dict(grabs)
    return d
def grab(i, level=1): return {"k": "grab", "id": i, "_level": level}
def q(v): return {"k": "q", "a": [v]}
def try_(v): return {"k": "try", "a": [v]}
def go(f, *a): return {"k": "go", "f": f, "a": list(a)}
def in_(f): return {"k": "in", "f": f}
def join(a): return {"k": "join", "a": [a]}
def next_(a, w=False): return {"k": "next", "a": [a], "w": w}
def probe(v): return prim("probe", v)

def infer(d, x):
    """The list that gives the range of a loop with counter x and body d (or list of statements), as in DyonStatic.tla."""
    def seq(ns, ds):
        for m in ns:
            r = inf(m, ds)
            if r: return r
    def itm(l, ids, es, ds):
        e = 0
        for j, i in enumerate(ids):
            if i[0] != "e": continue
            m = es[e]
            if m["k"] in ("var", "item"):
                if m["x"] == x: return None if l in ds else (l, ids[:j], es[:e])
                if m["x"] in ds: return None
                r = inf(m, ds)
                if r: return r
                e += 1
            else:
                return inf(m, ds)
    def blk(ns, ds):
        for m in ns:
            if m["k"] not in ("decl", "asg"):
                r = inf(m, ds)
                if r: return r
                continue
            r = inf(m["a"][0], ds)
            if r: return r
            if m["x"] == x: return None
            if m["k"] == "decl": ds = ds | {m["x"]}
            else:
                r = itm(m["x"], m["ids"], m["a"][1:], ds)
                if r: return r
    def inf(m, ds):
        if m is None: return None
        k = m["k"]
        if k in ("lit", "var", "grab", "brk", "cont", "retv", "in", "clos"): return None
        if k == "item": return itm(m["x"], m["ids"], m["a"], ds)
        if k == "asg": return itm(m["x"], m["ids"], m["a"][1:], ds) or inf(m["a"][0], ds)
        if k == "block": return blk(m["a"], ds)
        if k == "if": return seq([m["a"][0], m["th"], m["el"]], ds)
        if k == "for":
            i = m["a"][0]
            r = inf(i, ds)
            if r: return r
            if i is not None and i["k"] == "decl":
                if i["x"] == x: return None
                ds = ds | {i["x"]}
            return seq(m["a"][1:], ds)
        if k == "forn":
            if m["x"] == x: return None
            ds = ds | {m["x"]}
            return seq([m["st"], m["en"], m["body"]], ds) or blk(m["a"], ds)
        if k == "forin": return inf(m["it"], ds)
        return seq(m["a"], ds)
    r = blk(d, frozenset()) if isinstance(d, list) else inf(d, frozenset())
    if not r: return None
    l, ids, es = r
    return prim("len", {"k": "item", "x": l, "ids": ids, "tries": [], "a": es} if ids else var(l))
def infn(kd, x, body, **kw):
    """A loop whose range is left out."""
    en = infer(list(kw["a"]) if body is None else body, x)
    return forn(kd, x, None, en, body, infer=True, **kw)

class Fn:
    def __init__(self, name, args, body, rets=True, cus=(), muts=(), lts=(), tys=(), rty=None, lz=None, ins=False,
                 curmut=(), curty=(), expr=False):
        self.name, self.args, self.body, self.rets, self.cus = name, list(args), body, rets, list(cus)
        self.muts, self.lts, self.tys, self.rty = set(muts), dict(lts), dict(tys), rty
        self.lz = lz or [[] for _ in args]
        self.ins, self.curmut, self.curty, self.expr = ins, set(curmut), dict(curty), expr

class Prog:
    """fns: list of Fn in the order of the source text; main is called "main"."""
    def __init__(self, fns, head="", order=None):
        self.fns, self.head, self.order = fns, head, order

    # ------------------------------------------------------------ node table
    def table(self):
        nodes = []
        index = {f.name: i + 1 for i, f in enumerate(self.fns)}
        by = {f.name: f for f in self.fns}

        def put(d):
            if d is None:
                return 0
            me = len(nodes)
            nodes.append(None)
            out = {}
            for k, v in d.items():
                if k[0] == "_":
                    continue
                if k == "a":
                    out[k] = [put(c) for c in v]
                elif k in CHILD1:
                    out[k] = put(v)
                elif k == "f":
                    out[k] = index[v]
                else:
                    out[k] = v
            if d["k"] in ("call", "go"):
                f = by[d["f"]]
                out["mu"] = d.get("_mu") or [a in f.muts for a in f.args]
            nodes[me] = out
            return me + 1

        ins = set()
        def walk(d):
            if isinstance(d, dict):
                if d.get("k") == "in":
                    ins.add(d["f"])
                for v in d.values():
                    walk(v)
            elif isinstance(d, list):
                for v in d:
                    walk(v)
        for f in self.fns:
            walk(f.body)
        fns = [{"name": f.name, "args": f.args, "rets": f.rets, "cus": f.cus, "body": put(f.body),
                "lz": f.lz, "ins": f.name in ins, "lts": [f.lts.get(a, "") for a in f.args],
                "muts": [a in f.muts for a in f.args], "curmut": [c in f.curmut for c in f.cus], "ex": bool(f.expr)}
               for f in self.fns]
        return {"nodes": nodes, "fns": fns, "main": index["main"]}

    def marked(self):
        """The source text; each statement and body of a function gets the lines it is on."""
        global MARK
        MARK = []
        try:
            text = self.source()
        finally:
            marks, MARK = MARK, None
        for d in marks: d["ln"] = []
        out, line, start = "", 1, {}
        for part in re.split("(\x01\\d+\x01|\x02\\d+\x02)", text):
            if part[:1] == "\x01": start[part] = line
            elif part[:1] == "\x02": marks[int(part[1:-1])]["ln"].append([start["\x01" + part[1:-1] + "\x01"], line])
            else:
                out += part
                line += part.count("\n")
        return out

    # ----------------------------------------------------------------- source
    def source(self):
        fns = [self.fns[i] for i in self.order] if self.order else self.fns
        by = {f.name: f for f in self.fns}
        return (self.head + "\n" if self.head else "") + "\n".join(fn_src(f, by) for f in fns) + "\n"

def lz_src(z):
    return {"uok": "ok(_)", "uerr": "err(_)", "usome": "some(_)"}.get(z[0]) or lit_src(z)

def fn_src(f, by):
    ps = []
    for i, a in enumerate(f.args):
        t = ("mut " if a in f.muts else "") + a
        lt, ty = f.lts.get(a), f.tys.get(a)
        if lt or ty:
            t += ": " + ("'" + lt + " " if lt else "") + (ty or "")
        if f.lz[i]:
            t += " => " + " | ".join(lz_src(z) for z in f.lz[i])
        ps.append(t.rstrip())
    cs = ""
    if f.cus:
        cs = " ~ " + ", ".join(("mut " if c in f.curmut else "") + c + (": " + f.curty[c] if c in f.curty else "")
                               for c in f.cus)
    if f.expr:
        return "%s(%s)%s = %s\n" % (f.name, ", ".join(ps), cs, mark(f.body, src(f.body, by, 0)))
    return "fn %s(%s)%s %s%s\n" % (f.name, ", ".join(ps), cs, ("->" + (" " + f.rty if f.rty else "") + " ") if f.rets else "",
                                   mark(f.body, src(f.body, by, 0)))

def esc(x):
    out = '"'
    for c in x:
        out += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c)
    return out + '"'

def lit_src(v):
    t = v[0]
    if t == "n":
        return str(v[1])
    if t == "b":
        return "true" if v[1] else "false"
    if t == "s":
        return esc(v[1])
    raise ValueError(v)

INFIX = {"+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "dot", "cross", "and", "or"}
INFIX_SRC = {"dot": "*.", "cross": "x", "and": "&&", "or": "||"}
ARROPS = {"push", "push_ref", "insert", "insert_ref", "pop", "remove", "reverse", "clear", "swap"}

def op_src(d):
    return d.get("_sym") or INFIX_SRC.get(d["op"], d["op"])

def ids_src(d, by, ind):
    es = iter(d["a"][1:] if d["k"] == "asg" else d["a"])
    if d["k"] == "callc":
        es = iter(d.get("_ides", []))
    tries = d.get("tries", [])
    out = ""
    for i, x in enumerate(d["ids"]):
        if x[0] == "k":
            out += ("." + x[1]) if (x[1].isidentifier() and not d.get("_br")) else "[%s]" % esc(x[1])
        elif x[0] == "i":
            out += "[%d]" % x[1]
        else:
            t = src(next(es), by, ind)
            out += "[%s]" % (paren(t) if t[0].isdigit() or t[0] in '"-' else t)
        if i + 1 in tries:
            out += "?"
    return out

def paren(t):
    return "(" + t + ")"

def operand(d, by, ind):
    """An operand of an operator: anything that is not a plain word gets parentheses."""
    t = src(d, by, ind)
    if d["k"] in ("lit", "var", "vec4", "link", "mat4") and "_un" not in d:
        return t if t[0] != "-" else paren(t)
    if d["k"] == "prim" and d["op"] not in INFIX and d["op"] not in ("neg", "not"):
        return t
    if d["k"] in ("call", "item") and not d.get("_infix"):
        return t
    if t.startswith("(") and d.get("_par"):
        return t
    return paren(t)

def body_src(d, by, ind):
    if d["k"] == "block":
        return src(d, by, ind)
    return "{ " + src(d, by, ind) + " }"

def args_src(ds, by, ind, muts=(), names=None, cnames=None, mu=None):
    if mu:
        return ", ".join(("mut " if m else "") + src(a, by, ind) for a, m in zip(ds, mu))
    out = []
    for i, a in enumerate(ds):
        t = src(a, by, ind)
        if names and i < len(names) and names[i] in muts:
            t = "mut " + t
        if cnames:
            t = cnames[i] + ": " + t
        out.append(t)
    return ", ".join(out)

def src(d, by, ind):
    k = d["k"]
    pad = "    " * (ind + 1)
    if k == "lit":
        return lit_src(d["v"])
    if k == "var":
        return d["x"] if not d.get("_cur") else "~ " + d["x"]
    if k == "grab":
        c = d["_expr"]
        lv = "'%d " % d["_level"] if d["_level"] != 1 or d.get("_showlevel") else ""
        return "(grab %s%s)" % (lv, src(c, by, ind))
    if k == "prim":
        op, a = d["op"], d["a"]
        if op in INFIX:
            return "%s %s %s" % (operand(a[0], by, ind), op_src(d), operand(a[1], by, ind))
        if op == "neg":
            return "-" + operand(a[0], by, ind)
        if op == "not":
            return "!" + operand(a[0], by, ind)
        if op == "norm":
            return "|" + src(a[0], by, ind) + "|"
        if op == "law":
            return d["_text"]
        if op in PARTS:
            return "%s(%s / %s)" % (op[:-1], operand(a[0], by, ind), op[-1])
        if op in NAMED:
            return "%s(%s)" % (op, args_src(a, by, ind, cnames=NAMED[op]))
        if op in ARROPS:
            return "%s(mut %s)" % (op, args_src(a, by, ind))
        return "%s(%s)" % (d.get("_sym") or op, args_src(a, by, ind))
    if k == "arr":
        return "[" + ", ".join(src(a, by, ind) for a in d["a"]) + "]"
    if k == "fill":
        return "[%s; %s]" % (src(d["a"][0], by, ind), src(d["a"][1], by, ind))
    if k == "vec4" and "_un" in d:
        return "vec%d %s %s" % (d["_un"][0], d["_un"][1], src(d["_un"][2], by, ind))
    if k == "swz":
        return d["_sw"] + " " + operand(d["a"][0], by, ind)
    if k == "vec4" and "_len" in d:
        return "(" + ", ".join(src(a, by, ind) for a in d["a"][:d["_len"]]) + (",)" if d["_len"] == 1 else ")")
    if k == "vec4":
        return "(" + ", ".join(src(a, by, ind) for a in d["a"]) + ")"
    if k == "mat4":
        if d.get("_rows"):      # rows without parentheses
            return "mat4 {" + "; ".join(src(a, by, ind)[1:-1] for a in d["a"][:d.get("_len", 4)]) + ";}"
        return "mat4 {" + "; ".join(src(a, by, ind) for a in d["a"][:d.get("_len", 4)]) + (";" if d.get("_len", 4) < 4 else "") + "}"
    if k == "obj":
        return "{" + ", ".join("%s: %s" % (kk if kk.isidentifier() else esc(kk), src(a, by, ind))
                               for kk, a in zip(d["ks"], d["a"])) + "}"
    if k == "link":
        return "link { " + "\n".join(link_item(a, by, ind) for a in d["a"]) + " }"
    if k == "block":
        if not d["a"]:
            return "{}"
        return "{\n" + "".join(pad + mark(a, src(a, by, ind + 1)) + "\n" for a in d["a"]) + "    " * ind + "}"
    if k == "if":
        t = "if %s %s" % (src(d["a"][0], by, ind), body_src(d["th"], by, ind))
        if d["el"] is not None:
            t += " else " + (src(d["el"], by, ind) if d["el"]["k"] == "if" else body_src(d["el"], by, ind))
        return t
    lb = ("'%s: " % d["lb"]) if d.get("lb") else ""
    if k == "for":
        i, c, st, bo = d["a"]
        if i is None:
            return lb + "loop " + body_src(bo, by, ind)
        return lb + "for %s; %s; %s %s" % (src(i, by, ind), src(c, by, ind), src(st, by, ind), body_src(bo, by, ind))
    if k == "forn":
        name = {"sumv": "sum_vec4", "prodv": "prod_vec4"}.get(d["kd"], d["kd"])
        name = d.get("_sym", name)
        t = lb + name + " "
        e = d
        while True:
            t += e["x"]
            if e.get("_infer"):
                pass
            elif e["st"] is not None:
                t += " [%s, %s)" % (src(e["st"], by, ind), src(e["en"], by, ind))
            else:
                t += " " + src(e["en"], by, ind)
            if e.get("_packed"):
                e = e["a"][0] if e["kd"] == "link" else e["body"]
                t += ", "
            else:
                break
        if d["kd"] == "link":
            return t + " { " + "\n".join(link_item(a, by, ind) for a in e["a"]) + " }"
        return t + " " + body_src(e["body"], by, ind)
    if k == "forin":
        t = lb + d["kd"] + " " + d["x"] + " in " + src(d["it"], by, ind) + " "
        if d["kd"] == "link":
            return t + "{ " + "\n".join(link_item(a, by, ind) for a in d["a"]) + " }"
        return t + body_src(d["body"], by, ind)
    if k == "brk":
        return "break" + (" '" + d["lb"] if d["lb"] else "")
    if k == "cont":
        return "continue" + (" '" + d["lb"] if d["lb"] else "")
    if k == "ret":
        return "return " + src(d["a"][0], by, ind)
    if k == "retv":
        return "return"
    if k == "decl":
        return ("~ " if d["cur"] else "") + d["x"] + " := " + src(d["a"][0], by, ind)
    if k == "asg":
        return d["x"] + ids_src(d, by, ind) + " " + d["op"] + " " + src(d["a"][0], by, ind)
    if k == "item":
        return d["x"] + ids_src(d, by, ind)
    if k == "call":
        f = by[d["f"]]
        nm = d.get("_as", d["f"])
        return "%s(%s)" % (nm, args_src(d["a"], by, ind, f.muts, f.args, d.get("_names"), d.get("_mu")))
    if k == "callc":
        return "\\%s%s(%s)" % (d["x"], ids_src(d, by, ind), args_src(d["a"], by, ind, cnames=d.get("_names")))
    if k == "clos":
        if "_text" in d: return d["_text"]
        return "\\(%s)%s = %s" % (", ".join(d["args"]), (" ~ " + ", ".join(d["cus"]) if d["cus"] else ""),
                                   mark(d["body"], src(d["body"], by, ind)))
    if k == "q":
        c = d["a"][0]
        return (src(c, by, ind) if c["k"] in ("var", "call", "item") else paren(src(c, by, ind))) + "?"
    if k == "try":
        if d["a"][0]["k"] == "block":
            return "try " + src(d["a"][0], by, ind)
        return "try " + operand(d["a"][0], by, ind)
    if k == "go":
        f = by[d["f"]]
        return "go %s(%s)" % (d["f"], args_src(d["a"], by, ind, f.muts, f.args))
    if k == "in":
        return "in " + d["f"]
    if k == "join":
        return "join(thread: %s)" % src(d["a"][0], by, ind)
    if k == "next":
        return "%s(%s)" % ("wait_next" if d["w"] else "next", src(d["a"][0], by, ind))
    raise ValueError(k)

def link_item(a, by, ind):
    t = src(a, by, ind)
    if a["k"] in ("lit",) and t[0] != "-" or a["k"] in ("if", "forn", "for", "brk", "cont"):
        return t
    return paren(t)
