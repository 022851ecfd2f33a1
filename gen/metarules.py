"""Texts for meta rules (C26)."""
import random
from data import cps, txt, plainnum, CHARS
OPEN, CLOSE = "([<", ")]>"
def q(s):
    """as Dyon and meta rules write a text"""
    return '"' + "".join({"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c) for c in s) + '"'
SRC = '''fn main() {
    s := unwrap(syntax(in: "rules", string: input(0)))
    saved := unwrap(save(string: input(0), file: "rules.txt"))
    for i [1, inputs()) {
        t := input(i)
        r := meta(syntax: s, in: "text", string: t)
        if is_ok(r) {
            outd(some(unwrap(r)))
        } else {
            outd(none())
        }
        k := unwrap(save(string: t, file: "a.txt"))
        f := load(meta: "rules.txt", file: "a.txt")
        if is_ok(f) {
            outd(some(unwrap(f)))
        } else {
            outd(none())
        }
        if is_ok(r) {
            outd(json_from_meta_data(unwrap(r)))
        } else {
            outd(none())
        }
    }
}
'''
def rules(n):
    return '0 item = {["+":%s] ["!":!%s] .$:%s .t?:%s a:%s b:%s c:%s}\n' % tuple(map(q, (n["yes"], n["yes"], n["num"], n["text"], *n["node"]))) \
        + "".join('%d %s = ["%s" .s?(" " item) "%s"]\n' % (i + 1, "abc"[i], OPEN[i], CLOSE[i]) for i in range(3)) + '4 document = [.s?(" " item) .w?]\n'
def itext(x):
    if x[0] == "b": return "+" if x[1] else "!"
    if x[0] == "n": return txt(x[1])
    if x[0] == "t": return q(txt(x[1]))
    return OPEN[x[1] - 1] + " ".join(map(itext, x[2])) + CLOSE[x[1] - 1]
def text(xs): return " ".join(map(itext, xs))
class Meta:
    def __init__(self, names, docs): self.names, self.docs = names, docs     # docs: (items, broken text or None)
    def job(self): return {"src": SRC, "files": {}, "inputs": [["t", cps(rules(self.names))]] + [["t", cps(self.t(d))] for d in self.docs]}
    def t(self, d): return text(d[0]) if d[1] is None else d[1]
    def table(self):
        n = self.names
        return {"names": {"yes": cps(n["yes"]), "num": cps(n["num"]), "text": cps(n["text"]), "node": [cps(x) for x in n["node"]]},
                "in": [{"bad": d[1] is not None, "items": d[0] if d[1] is None else [], "text": cps(self.t(d))} for d in self.docs]}
    def show(self): return SRC + "\nrules:\n" + rules(self.names) + "\ntexts:\n" + "\n".join(repr(self.t(d)) for d in self.docs)
PLAIN = dict(yes="yes", num="num", text="text", node=["node", "list", "pair"])
def names(r):
    pool = ["a", "b", "name", "x y", "\u00e6", "start", "end", "str", "bool", "f64", "\"", "\\", "k:", "n\nl", "{", "}", "\U0001f600"]
    return dict(yes=r.choice(pool), num=r.choice(pool), text=r.choice(pool), node=[r.choice(pool) for _ in range(3)])
def leaf(r):
    k = r.random()
    if k < 0.25: return ["b", r.random() < 0.5]
    if k < 0.6: return ["n", cps(plainnum(r.choice(["0", "1", "7", "12", "0.5", "100", "2.25", "1000", "65536", "0.125"])))]
    return ["t", cps("".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 4]))))]
def items(r, d, n=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3]) if n is None else n):
        out.append(["node", r.randint(1, 3), items(r, d - 1)] if d > 0 and r.random() < 0.5 else leaf(r))
    return out
def broken(xs, r):
    """For texts in ASCII: the library that reads texts takes what follows other characters for a part of them
    (it compares bytes with characters). A bracket too few, too many or of the wrong kind, or something that is no item"""
    t = text(xs)
    qs, inq, i = [], False, 0
    while i < len(t):
        if inq and t[i] == "\\": i += 2; continue
        if t[i] == '"': inq = not inq
        elif not inq and t[i] in OPEN + CLOSE: qs.append(i)
        i += 1
    k = r.random()
    if qs and k < 0.5:
        i = r.choice(qs)
        return t[:i] + t[i + 1:] if k < 0.25 else t[:i] + r.choice([c for c in (OPEN if t[i] in OPEN else CLOSE) if c != t[i]]) + t[i + 1:]
    if k < 0.75: return t + r.choice(CLOSE)
    return (t + " " if t else "") + r.choice(["?", "+?", "yes", "(", "( ]", "<("])
def small():
    """all documents of a few items"""
    ls = [["b", True], ["b", False], ["n", cps("1")], ["n", cps("0.5")], ["t", []], ["t", cps("a")], ["t", cps("\u00e6\"\n")]]
    n0 = [["node", k, []] for k in (1, 2, 3)]
    one = ls + n0
    n1 = [["node", k, [x]] for k in (1, 2, 3) for x in one]
    docs = [[]] + [[x] for x in one + n1] + [[a, b] for a in one for b in one]
    docs += [[["node", 1, [["node", 2, [a, b]], c]]] for a in ls for b in n0 for c in one[2:6]]
    return [Meta(PLAIN, [(d, None) for d in docs[i:i + 25]]) for i in range(0, len(docs), 25)]
def rand(k, r):
    out = []
    for _ in range(k):
        docs = []
        for _ in range(12):
            xs = items(r, r.choice([1, 2, 3, 4]), r.choice([None, None, 1, 2, 5]))
            docs.append((xs, broken(xs, r) if r.random() < 0.25 and text(xs).isascii() else None))
        out.append(Meta(PLAIN if r.random() < 0.5 else names(r), docs))
    return out

TOK = '''fn js(x: any) {
    r := try json_from_meta_data(x)
    if is_ok(r) {
        outd(some(unwrap(r)))
    } else {
        outd(none())
    }
}
fn main() {
    for i inputs() {
        x := input(i)
        js(x)
        a := clone(x[0])
        js([a])
        k := clone(a[2])
        n := clone(a[3])
        v := clone(a[4])
        js([[1, 2, k, n, v]])
    }
}
'''
class Toks:
    """rows of [kind, name, value], or what is no row"""
    def __init__(self, lists): self.lists = lists
    def val(self, row): return ["a", [["n", [49]], ["n", [50]]] + row[0]]
    def job(self): return {"src": TOK, "files": {}, "inputs": [["a", [self.val(r) for r in rows]] for rows in self.lists]}
    def table(self): return {"names": 0, "in": [{"rows": [{"ok": r[1], "row": r[0]} for r in rows]} for rows in self.lists]}
    def show(self): return TOK + "\n" + "\n".join(map(repr, self.lists))
def row(r):
    k = r.choice(["start", "end", "bool", "f64", "str", "str"])
    v = {"start": ["b", True], "end": ["none"], "bool": ["b", r.random() < 0.5], "f64": ["n", cps(r.choice(["0", "12", "-1", "2.5"]))], "str": ["t", cps("".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 3]))))]}[k]
    return ([["t", cps(k)], ["t", cps(r.choice(["a", "b", "\u00e6", "x y", "", "\"", "\n", "}"]))], v], True)
def bad(r):
    x = row(r)[0]
    k = r.random()
    if k < 0.3: x = x[:r.choice([0, 1])]
    elif k < 0.5: x[0] = r.choice([["t", cps("x")], ["n", [49]], ["t", []]])
    elif k < 0.7: x[1] = r.choice([["n", [49]], ["b", True], ["none"]])
    else:
        x[0] = r.choice([["t", cps(s)] for s in ("bool", "f64", "str")])
        x[2] = r.choice([["none"], ["a", []]])
    return (x, False)
def toks(k, r):
    out = []
    for _ in range(k):
        ls = []
        for _ in range(10):
            rows = [row(r) for _ in range(r.choice([1, 1, 2, 3, 6]))]
            if len(rows) > 1 and r.random() < 0.3: rows[r.randrange(1, len(rows))] = bad(r)
            ls.append(rows)
        out.append(Toks(ls))
    return out
