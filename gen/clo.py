"""Closures that are printed and read again.

A first run prints every closure that is put into a variable.  In a second
program the text of each such closure is replaced by what was printed; it has
to do what the specification says of the first program."""
import copy, random
import fam, rnd
from ir import *
from fam import gr

def quiet(d):
    """nothing is observed when it is evaluated"""
    if isinstance(d, dict):
        return d.get("k") not in ("call", "callc", "go") and d.get("op") not in ("pr", "probe", "boom") and all(quiet(v) for k, v in d.items() if k[0] != "_")
    return not isinstance(d, list) or all(quiet(v) for v in d)

def sites(p):
    """(list of statements, index) of each declaration of a closure that is not inside of a closure"""
    out = []
    def walk(d):
        if isinstance(d, dict):
            if d.get("k") == "clos": return
            if d.get("k") == "block":
                out.extend((d["a"], i) for i, c in enumerate(d["a"]) if c and c["k"] == "decl" and c["a"][0]["k"] == "clos" and not c["cur"] and quiet(c["a"][0]["a"]))
            for k, v in d.items():
                if k[0] != "_": walk(v)
        elif isinstance(d, list):
            for v in d: walk(v)
    for f in p.fns: walk(f.body)
    return out

def printing(p):
    q = copy.deepcopy(p)
    ss = sites(q)
    for n_ in range(len(ss) - 1, -1, -1):
        a, i = ss[n_]
        a.insert(i + 1, probe(arr(s("@clo"), n(n_), prim("str", var(a[i]["x"])))))
        a.insert(i, probe(arr(s("@gr"), n(n_), *copy.deepcopy(a[i]["a"][0]["a"]))))
    return q

def writable(v):
    """a value that can be written in a source: no secret, and a finite number"""
    if isinstance(v, list):
        if v and v[0] in ("n", "b") and (len(v) > 2 and v[2] or isinstance(v[1], str)) or v and v[0] == "x": return False
        return all(writable(x) for x in v)
    return True

def printed(p, ev):
    """the program with the closures as they were printed; None if none was"""
    texts, no = {}, set()
    for e in ev:
        if e[0] == "a" and len(e[1]) >= 2 and e[1][0] == ["s", "@gr"] and not all(writable(v) for v in e[1][2:]):
            no.add(e[1][1][1])
        if e[0] == "a" and len(e[1]) == 3 and e[1][0] == ["s", "@clo"]:
            texts.setdefault(e[1][1][1], set()).add(e[1][2][1])
    q = copy.deepcopy(p)
    any_ = False
    for n_, (a, i) in enumerate(sites(q)):
        if len(texts.get(n_, ())) == 1 and n_ not in no:
            a[i]["a"][0]["_text"] = min(texts[n_])
            any_ = True
    return q if any_ else None

def wrap(cases, r, k):
    """cases of other families inside of a closure"""
    cases = [c for c in cases]
    r.shuffle(cases)
    out = []
    for c in cases[:k]:
        fs, st = c if isinstance(c, tuple) else ([], c)
        st = copy.deepcopy(list(st))
        if any(x["k"] in ("ret", "retv") for x in st): continue
        body = block(*st, n(1))
        out.append((fs, [decl("cl9", clos([], body)), decl("r9", callc("cl9", [])), probe(var("r9"))]))
    return out

class Tree:
    """Random expressions, with every kind of expression as operand of every other."""
    def __init__(self, r): self.r = r

    def num(self, d):
        r = self.r
        c = r.randrange(22) if d > 0 else r.randrange(5)
        if c == 0: return n(r.randrange(4))
        if c == 1: return prim("neg", n(r.randrange(1, 4)))
        if c == 2: return prim("clone", var("x"))
        if c == 3: return item("y", [I(r.randrange(2))])
        if c == 4: 
            i = r.randrange(2)
            return gr(i + 1, var("gh"[i]))
        if c < 10: return prim(r.choice("++--**"), self.num(d - 1), self.num(d - 1))
        if c == 10: return prim(r.choice("%^"), self.num(d - 1), n(r.randrange(1, 3)))
        if c < 13: return prim("neg", self.num(d - 1))
        if c == 13: return if_(self.bool(d - 1), block(self.num(d - 1)), block(self.num(d - 1)))
        if c == 14: return dict(prim("pr", self.num(d - 1)), **({"_sym": "h::pr"} if r.random() < 0.5 else {}))
        if c == 15: return prim("len", self.arr(d - 1))
        if c == 16: return forn("sum", "i", None, n(r.randrange(3)), block(prim("+", self.num(d - 1), var("i"))))
        if c == 17: return prim("dot", self.vec(d - 1), self.vec(d - 1))
        if c == 18: return prim(r.choice("xyzw"), self.vec(d - 1))
        if c == 19: return prim("unwrap_or", prim(r.choice(["some", "ok"]), self.num(d - 1)), self.num(d - 1))
        if c == 20: return item("y", [E(prim("%", prim("pr", self.num(0)), n(2)))])
        return prim("dynv", self.num(d - 1))

    def bool(self, d):
        r = self.r
        c = r.randrange(12) if d > 0 else 0
        if c == 0: return b(r.random() < 0.5)
        if c < 5: return prim(r.choice(["==", "!=", "<", "<=", ">", ">="]), self.num(d - 1), self.num(d - 1))
        if c < 8: return prim(r.choice(["and", "or"]), self.bool(d - 1), self.bool(d - 1))
        if c == 8: return prim("not", self.bool(d - 1))
        if c == 9: return prim(r.choice(["==", "!="]), self.bool(d - 1), self.bool(d - 1))
        if c == 10: return prim(r.choice(["==", "!="]), self.arr(d - 1), self.arr(d - 1))
        return prim("==", self.str(d - 1), self.str(d - 1))

    def str(self, d):
        r = self.r
        c = r.randrange(6) if d > 0 else 0
        if c < 2: return s(r.choice(["", "a", "b\"c", "d\\e\nf", "ä", "(", "x -"]))
        if c < 4: return prim("+", self.str(d - 1), self.str(d - 1))
        if c == 4: return prim("str", self.num(d - 1))
        return if_(self.bool(d - 1), block(self.str(d - 1)), block(self.str(d - 1)))

    def vec(self, d):
        r = self.r
        c = r.randrange(8) if d > 0 else 0
        if c < 3: return vec4(*([self.num(d - 1 if c else 0) for _ in range(r.randrange(1, 5))] + [n(0)] * 4)[:4])
        if c == 3: return vec4(n(0), n(0), n(0), n(0))
        if c < 6: return prim(r.choice(["+", "-", "*", "cross"]), self.vec(d - 1), self.vec(d - 1))
        if c == 6: return prim("neg", self.vec(d - 1))
        return prim("*", self.vec(d - 1), self.num(d - 1))

    def arr(self, d):
        r = self.r
        c = r.randrange(5) if d > 0 else 0
        if c < 2: return arr(*[self.num(d - 1) for _ in range(r.randrange(4))])
        if c == 2: return fill(self.num(d - 1), n(r.randrange(3)))
        if c == 3: return forn("sift", "i", None, n(r.randrange(3)), block(self.num(d - 1)))
        return if_(self.bool(d - 1), block(self.arr(d - 1)), block(self.arr(d - 1)))

    def obj(self, d):
        return obj(*[(k, self.any(d - 1)) for k in ("a", "b_c", "d e", "")[:self.r.randrange(5)]])

    def link(self, d):
        return link(*[self.r.choice([self.num, self.bool, self.str])(d - 1) for _ in range(self.r.randrange(5))])

    def opt(self, d):
        return prim(*self.r.choice([("some", self.any(d - 1)), ("none",), ("ok", self.any(d - 1)), ("err", self.str(d - 1))]))

    def any(self, d):
        r = self.r
        return r.choice([self.num, self.num, self.bool, self.str, self.vec, self.arr, self.obj, self.link, self.opt] if d > 0 else [self.num, self.bool, self.str])(d)

def nesting(text):
    d = m = 0
    for c in text:
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        m = max(m, d)
    return m

def trees(k, r):
    out = []
    t = Tree(r)
    while len(out) < k:
        e = t.any(3)
        if nesting(src(e, {}, 0)) > 5: continue      # the parser takes long
        used = set()
        def walk(d):
            if isinstance(d, dict):
                if d.get("k") == "grab": used.add(d["id"])
                for v in d.values(): walk(v)
            elif isinstance(d, list):
                for v in d: walk(v)
        walk(e)
        c = clos(["x", "y"], e, grabs=[(i, var("gh"[i - 1])) for i in sorted(used)])
        st = [decl("g", n(r.randrange(1, 4))), decl("h", prim("neg", n(r.randrange(1, 4)))), decl("f", c)]
        for _ in range(2):
            st += [decl("r", callc("f", [], prim("neg", n(r.randrange(3))) if r.random() < 0.5 else n(r.randrange(3)), arr(n(r.randrange(3)), n(5)))), probe(var("r"))]
        out.append(st)
    return fam.pack(out, 1, head="use host as h")
