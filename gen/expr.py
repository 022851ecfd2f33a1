"""Texts of expressions: how operators group, and in which order operands are evaluated."""
import random
SPELL = {"+": ["+", "+", "∨", " or "], "-": ["-"], "or": ["||"], "*": ["*", "*", "∧", " and "], "/": ["/"], "%": ["%"], "and": ["&&"],
         "dot": ["*.", "·"], "cross": [" x ", "⨯"], "^": ["^", "⊻", " xor "], "neg": ["-"], "not": ["!", "¬"],
         "<": ["<"], "<=": ["<="], ">": [">"], ">=": [">="], "==": ["=="], "!=": ["!=", "¬="]}
BEFORE = ["", " ", " ", " "]
AFTER = ["", " ", " ", " ", "\n        ", " /* c */ "]

class G:
    def __init__(self, r, plain=False): self.r, self.plain, self.pre, self.names = r, plain, [], {}
    def ch(self, l): return self.r.choice(l)
    def val(self, ty):
        r = self.r
        if ty == "n": return ["n", r.randint(0, 5)]
        if ty == "b": return ["b", r.random() < 0.5]
        if ty == "s": return ["s", r.choice(["a", "b", "c"])]
        return ["v", [r.randint(0, 3), r.randint(0, 3), r.randint(0, 3), r.choice([0, 0, 1])]]
    def operand(self, ty):
        if not self.plain and self.r.random() < 0.06: ty = self.ch(["n", "b", "s", "v"])
        return [["v", self.val(ty), not self.plain or self.r.random() < 0.5]]
    # a primary of the type
    def prim(self, ty, d):
        r = self.r.random()
        if d > 0 and r < 0.35: return [["p", self.expr(ty, d - 1)]]
        if ty == "b" and r < 0.5: return [["o", "not"]] + self.prim("b", d - 1)
        if ty == "n" and r < 0.4 and d > 0: return [["n", self.ch([[["v", ["v", x], True]] for x in ([3, 4, 0, 0], [2, 2, 1, 0], [0, 0, 5, 0], [1, 1, 1, 1])])]]
        return self.operand(ty)
    def factor(self, ty, d):
        r = self.r.random()
        if ty in ("n", "v") and r < 0.12: return [["o", "neg"]] + self.product(ty, d - 1)
        if ty in ("n", "b") and r < 0.24: return self.prim(ty, d - 1) + [["o", "^"]] + self.prim(ty, d - 1)
        return self.prim(ty, d)
    def product(self, ty, d):
        t = self.factor(ty, d)
        for _ in range(self.ch([0, 0, 1, 1, 2])):
            if ty == "n":
                op = self.ch(["*", "*", "%", "/"])
            elif ty == "b": op = self.ch(["*", "and", "and"])
            elif ty == "v": op = self.ch(["*", "cross"])
            else: break
            t = t + [["o", op]] + self.factor(ty, d - 1)
        return t
    def sum(self, ty, d):
        t = self.product(ty, d)
        for _ in range(self.ch([0, 1, 1, 2])):
            op = self.ch({"n": ["+", "-"], "b": ["+", "-", "or", "or"], "v": ["+", "-"], "s": ["+"]}[ty])
            t = t + [["o", op]] + self.product(ty, d - 1)
        return t
    def expr(self, ty, d):
        r = self.r.random()
        if ty == "b" and r < 0.35:
            u = self.ch(["n", "n", "b", "s"])
            op = self.ch(["==", "!="] if u == "b" else ["<", "<=", ">", ">=", "==", "!="])
            return self.prim(u, d - 1) + [["o", op]] + self.expr(u, d - 1)
        if ty == "n" and r < 0.06 and d > 0: return self.prim("v", d - 1) + [["o", "dot"]] + self.prim("v", d - 1)
        return self.sum(ty, d)
    def text(self, ts):
        out = ""
        for i, t in enumerate(ts):
            if t[0] == "v":
                v = t[1]
                x = {"n": str, "b": lambda b: "true" if b else "false", "s": lambda s: '"%s"' % s, "v": lambda c: "(%s)" % ", ".join(map(str, c))}[v[0]](v[1])
                k = self.r.random()
                if t[2]: out += "pr(%s)" % x
                elif k < 0.5: out += x
                else:
                    nm = self.names.get(x)
                    if nm is None:
                        nm = self.names[x] = "c%d" % len(self.names)
                        self.pre.append("%s := dynv(%s)" % (nm, x))
                    out += nm
            elif t[0] == "p": out += "(%s%s)" % (self.ch(["", "", " "]), self.text(t[1]))
            elif t[0] == "n": out += "|%s|" % self.text(t[1])
            else:
                s = self.ch(SPELL[t[1]])
                if t[1] in ("neg", "not"): out += s
                elif s[0] == " ": out += s
                else:
                    a = self.ch(AFTER)
                    out += (self.ch(BEFORE) if s.isascii() else " ") + s + a
        return out
class Job_:
    maybe = False
    def __init__(self, items, src): self.items, self.src = items, src
    def job(self): return {"src": self.src}
    def table(self): return {"in": [t for t, _ in self.items], "txt": [x for _, x in self.items]}
    def show(self): return self.src
def program(tss, r):
    g, items, body = G(r), [], []
    for k, ts in enumerate(tss):
        x = g.text(ts)
        items.append((ts, x))
        body += ["e%d := try %s" % (k, x), "if is_ok(e%d) {" % k, "    probe(unwrap(e%d))" % k, "} else {", '    probe("err")', "}", 'probe("|")']
    src = "fn main() {\n" + "".join("    %s\n" % l for l in g.pre + body) + "}\n"
    return Job_(items, src)
def random_(n, r):
    out = []
    for _ in range(n // 8):
        plain = r.random() < 0.4
        out.append(program([G(r, plain).expr(r.choice(["n", "n", "b", "b", "b", "v", "s"]), r.choice([1, 1, 2])) for _ in range(8)], r))
    return out
def flat(r):
    """every two or three operators next to each other"""
    tss = []
    for ty, ops in (("n", ["+", "-", "*", "/", "%", "^"]), ("b", ["+", "-", "*", "^", "and", "or", "==", "!="])):
        for o1 in ops:
            for o2 in ops:
                if o1 == o2 == "^" or (o1 not in ("==", "!=") and o2 in ("==", "!=")): continue
                for pre in ([], ["neg"] if ty == "n" else ["not"]):
                    for at in range(3 if pre else 1):
                        for vs in range(3):
                            g = G(r)
                            a, b, c = [[["v", g.val(ty), True]] for _ in range(3)]
                            if o1 == "^" and ty == "n": b[0][1] = ["n", r.randint(0, 3)]
                            p = [["o", x] for x in pre]
                            if p and p[0][1] == "neg":
                                if at == 1 and o1 == "^" or at == 2 and o2 == "^" : continue
                                if at == 0 and o1 == "^" and o2 == "^": continue
                            ts = (p if at == 0 else []) + a + [["o", o1]] + (p if at == 1 else []) + b + [["o", o2]] + (p if at == 2 else []) + c
                            if "^" in (o1, o2) and o1 == "^" and o2 == "^": continue
                            tss.append(ts)
    return [program(tss[i:i + 8], r) for i in range(0, len(tss), 8)]
