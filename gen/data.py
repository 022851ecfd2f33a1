"""Texts and values for load_data, str, json_string and save (C18)."""
import random
def cps(s): return [ord(c) for c in s]
def txt(t): return "".join(map(chr, t))

READ = '''fn main() {
    for i inputs() {
        t := input(i)
        r := load_data(string: t)
        if is_ok(r) {
            outd(some(unwrap(r)))
        } else {
            outd(none())
        }
        k := unwrap(save(string: t, file: "a.txt"))
        outd(unwrap(load_string(file: "a.txt")))
        f := load_data(file: "a.txt")
        if is_ok(f) {
            outd(some(unwrap(f)))
        } else {
            outd(none())
        }
    }
}
'''
WRITE = '''fn main() {
    for i inputs() {
        x := input(i)
        outd(str(x))
        t := json_string(x)
        outd(t)
        r := load_data(string: t)
        if is_ok(r) {
            outd(some(unwrap(r)))
        } else {
            outd(none())
        }
        k := unwrap(save(data: x, file: "a.txt"))
        outd(unwrap(load_string(file: "a.txt")))
        f := load_data(file: "a.txt")
        if is_ok(f) {
            outd(some(unwrap(f)))
        } else {
            outd(none())
        }
        outd(x)
        z := load_data(string: fmt(tab: 2, string: t))
        if is_ok(z) {
            outd(some(unwrap(z)))
        } else {
            outd(none())
        }
    }
}
'''
COLOR = '''fn main() {
    for i inputs() {
        r := load_data(string: input(i))
        outd(str(color: unwrap(r)))
    }
}
'''
class Data:
    def __init__(self, kind, ins): self.kind, self.ins = kind, ins
    def job(self): return {"src": {"read": READ, "write": WRITE, "color": COLOR}[self.kind], "files": {}, "inputs": self.ins if self.kind == "write" else [["t", t] for t in self.ins]}
    def table(self): return {"kind": self.kind, "in": self.ins}
    def show(self): return {"read": READ, "write": WRITE, "color": COLOR}[self.kind] + "\n" + "\n".join((repr(txt(t)) if self.kind != "write" else repr(show(t))) for t in self.ins)

def show(v):
    if v[0] in "nt": return txt(v[1])
    if v[0] == "v": return "(" + ",".join(map(txt, v[1])) + ")"
    if v[0] == "o": return "{" + ", ".join("%r: %s" % (txt(k), show(x)) for k, x in v[1]) + "}"
    if v[0] in ("a", "l"): return v[0] + "[" + " ".join(map(show, v[1])) + "]"
    if v[0] == "some": return "some(" + show(v[1]) + ")"
    return str(v[1:])

NUMS = ["0", "1", "-1", "7", "12", "-12", "0.5", "-0.25", "0.3", "0.1", "0.7", "100", "1000000", "12.75", "0.001", "-0", "3.14159", "9007199254740993", "123456789012", "0.30000000000000004", "100000000000000000000", "1e300", "5e-324", "1.7976931348623157e308", "0.0000001"]
SMALL = ["0", "1", "-1", "7", "12", "0.5", "-0.25", "0.3", "0.1", "100"]
CHARS = list("abz09 _-.,:;{}[]()\"\\/\n\t\r#'*") + ["\u00e6", "\u03c0", "\u20ac", "\U0001f600", "\b", "\f", "\u0000", "\u00a0", "\u2028"]
def plainnum(x):
    """as Rust shows it"""
    from decimal import Decimal
    f = float(x)
    s = format(Decimal(repr(f)), "f")
    if "." in s: s = s.rstrip("0").rstrip(".")
    return s
def num(r):
    if getattr(r, "short", False): return ["n", cps(plainnum(r.choice(SMALL)))]
    return ["n", cps(plainnum(r.choice(NUMS) if r.random() < 0.7 else repr(r.uniform(-1000, 1000) * 10 ** r.randint(-6, 6)) if r.random() < 0.5 else str(r.randint(-10**6, 10**6))))]
def string(r): return cps("".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))))
def key(r): return cps(r.choice(["a", "b", "x1", "_", "true", "none", "link", "\u00e6", "k y", "1", "", "a.b", "a\"b", "a\\b", "a\nb", "#f", "//", "/*"])) if r.random() < 0.9 else string(r)
def value(r, d):
    k = r.random()
    if d <= 0 or k < 0.45:
        k = r.random()
        if k < 0.3: return num(r)
        if k < 0.6: return ["t", string(r)]
        if k < 0.7: return ["b", r.random() < 0.5]
        if k < 0.8: return ["none"]
        if k < 0.9: return ["v", [cps(plainnum(r.choice(SMALL))) if n < 2 or r.random() < 0.5 else [48] for n in range(4)]]
        return ["l", [r.choice([num(r), ["t", string(r)], ["b", True]]) for _ in range(r.randint(0, 3))]]
    if k < 0.6: return ["some", value(r, d - 1)]
    if k < 0.8: return ["a", [value(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))]]
    ks = {}
    for _ in range(r.choice([0, 1, 1, 2, 3]) if d < 3 else r.choice([1, 2])): ks[tuple(key(r))] = value(r, d - 1)
    return ["o", [[list(a), ks[a]] for a in sorted(ks)]]

WS = ["", "", "", " ", "  ", "\n", "\t", "\u00a0", "\u2003", "// c\n", "/* c */", "/* a /* b */ c */", "/**/", "/***/", "/*/ */", " /* * */ ", "//\n//x\n", "/* ** // */", "/* /* */ /* */ */"]
def loose(v, r, ws=0.3):
    """one of the many texts of a value"""
    w = lambda: r.choice(WS) if r.random() < ws else ""
    def q(t):
        o = '"'
        for c in map(chr, t):
            k = r.random()
            if c in '"\\': o += "\\" + c
            elif c == "/" and k < 0.5: o += "\\/"
            elif c in "\n\t\r\b\f" and k < 0.7: o += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}[c]
            elif k < 0.15 and ord(c) < 65536: o += ("\\u%04x" if k < 0.08 else "\\u%04X") % ord(c)
            else: o += c
        return o + '"'
    def n(t):
        s = txt(t)
        k = r.random()
        if k < 0.1 and s[0] != "-": s = "00" + s
        elif k < 0.2 and "." in s: s += "0"
        elif k < 0.25 and "." not in s: s += "."
        elif k < 0.3 and "." not in s: s += ".0"
        elif k < 0.4 and len(s) > 2 and s[0] != "-": s = s[:1] + "_" + s[1:]
        elif k < 0.45 and s.startswith("0."): s = s[1:]
        return s
    if v[0] == "n": return n(v[1])
    if v[0] == "b": return "true" if v[1] else "false"
    if v[0] == "t": return q(v[1])
    if v[0] == "none": return "none()"
    if v[0] == "some": return "some(" + w() + loose(v[1], r, ws) + w() + ")"
    if v[0] == "v":
        p = v[1]
        m = 4 if txt(p[3]) != "0" else 3 if txt(p[2]) != "0" else 2
        m = r.randint(m, 4)
        s = "(" + w() + n(p[0])
        for x in p[1:m]: s += w() + "," + w() + n(x)
        return s + w() + ("," if r.random() < 0.05 else "") + w() + ")"
    if v[0] == "l":
        return "link" + w() + "{" + "".join(r.choice([" ", "\n", "  ", "/**/ "]) + loose(x, r, ws) for x in v[1]) + " " + w() + "}"
    if v[0] == "a":
        s = "[" + w() + (w() + "," + w()).join(loose(x, r, ws) for x in v[1])
        return s + w() + ("," if v[1] and r.random() < 0.15 else "") + w() + "]"
    fs = []
    for k, x in v[1]:
        bare = k and all(chr(c).isalnum() or c == 95 for c in k) and r.random() < 0.7
        fs.append((txt(k) if bare else q(k)) + w() + ":" + w() + loose(x, r, ws))
    r.shuffle(fs)
    return "{" + w() + (w() + "," + w()).join(fs) + w() + ("," if fs and r.random() < 0.15 else "") + w() + "}"
BITS = list("{}[](),:;\"\\#/*. +-_01e\n\u00e6") + ["link", "true", "false", "none()", "some(", "none", "link {", "//", "/*", "*/", "#ff0033", "#ff", "\\u", "\\u00e6", "\\ud800", "#336699cc"]
def broken(t, r):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(t))
        k = r.random()
        if k < 0.35: t = t[:i] + t[i + 1:]
        elif k < 0.7: t = t[:i] + r.choice(BITS) + t[i:]
        elif k < 0.85: t = t[:i] + r.choice(BITS) + t[i + 1:]
        else: t = t[:i]
    return t
def pack(kind, xs, n=40): return [Data(kind, xs[i:i + n]) for i in range(0, len(xs), n)]
def writes(k, r): return pack("write", [value(r, r.choice([0, 1, 2, 3])) for _ in range(k)])
def reads(k, r): return pack("read", [cps(r.choice(WS) + loose(value(r, r.choice([0, 1, 2, 3])), r, r.choice([0, 0.3, 0.8])) + r.choice(["", "", " ", "\n", " x"])) for _ in range(k)])
def breaks(k, r):
    r.short = True      # what becomes of a long number is only known when it was written by the library
    return pack("read", [cps(broken(loose(value(r, r.choice([0, 1, 2])), r, r.choice([0, 0.1, 0.4])), r)) for _ in range(k)])
def shorts(k, r):
    """all texts of up to two or three pieces"""
    B = BITS + ["a", "t", "x", "1", "\"a\"", "\"", "'"]
    out = [a for a in B] + [a + b for a in B for b in B] + [a + b + c for a in B for b in B for c in B]
    if k: out = out[:len(B) + len(B) ** 2] + r.sample(out, k)
    return pack("read", [cps(x) for x in out], 100)
def nested(r, k):
    """each kind of value inside each other"""
    leaf = [["n", cps("1")], ["n", cps("-0.5")], ["t", cps("a")], ["t", []], ["t", cps("\"")], ["t", cps("\\")], ["b", True], ["b", False], ["none"], ["v", [cps("1"), cps("2"), cps("0"), cps("0")]],
            ["v", [cps("1"), cps("2"), cps("3"), cps("0")]], ["v", [cps("1"), cps("0"), cps("0"), cps("-1")]], ["v", [cps("1"), cps("0.5"), cps("3"), cps("4")]], ["l", []], ["l", [["n", cps("1")]]], ["l", [["n", cps("1")], ["t", cps("b")], ["b", False]]], ["a", []], ["o", []]]
    wrap = [lambda x: ["some", x], lambda x: ["a", [x]], lambda x: ["a", [x, x]], lambda x: ["a", [["n", cps("1")], x, ["t", cps("q")]]], lambda x: ["o", [[cps("k"), x]]], lambda x: ["o", [[[], x]]], lambda x: ["o", [[cps("a b"), x], [cps("c"), ["b", True]]]]]
    out = list(leaf)
    l1 = [f(x) for f in wrap for x in leaf]
    out += l1 + [f(x) for f in wrap for x in l1]
    return pack("write", out) + pack("read", [cps(loose(x, r, w)) for x in out for w in (0, 0.5, 0.9)]) \
        + pack("read", [cps(p + c + s) for c in ("#000000", "#ff0033", "#336699cc", "#ff003300") for p, s in (("", ""), ("[", "]"), ("[", ", 1]"), ("{a: ", "}"), ("{a: ", ", b: 2}"), ("some(", ")"), ("[1, ", ", 2]"), ("/*x*/ ", " // y"))])
def colors(r): return pack("color", [cps("#" + "".join("%02x" % b for b in bs)) for bs in [(i, (i * 7) % 256, 255 - i, (i * 13 + 5) % 256) for i in range(256)] + [(1, 2, 3, 255), (0, 0, 0, 0), (255, 255, 255, 254)]])
