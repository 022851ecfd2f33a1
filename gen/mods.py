"""Programs of several modules: sources, imports, namespaces, transitive functions."""
import random, json, re

# usual signature of a name: (mutable part, arguments, result)
SIG = {"a": ("", 0, False), "b": ("", 1, False), "c": ("", 0, True), "d": ("", 1, True), "e": ("(mut)", 1, False),
       "f": ("", 0, True), "g": ("", 2, False), "kk": ("", 0, True), "pr": ("", 1, True)}
# `kk` gives a closure, and its body is the body of the closure
ORDER = ["pr", "a", "b", "c", "d", "kk", "e", "f", "g", "run", "main"]
NSS = [(), ("x",), ("x", "y"), ("z",)]
ALIASES = ["m", "k"]

class Mods:
    def __init__(self, srcs, via="module"):
        self.srcs, self.via = srcs, via

    def names(self):
        ns = {tuple(f["name"]) for s in self.srcs for f in s["fns"]}
        return sorted(ns, key=lambda n: (n[0] + n[1]).encode())

    def table(self):
        vs = {st[1] for s in self.srcs for f in s["fns"] for st in f["body"] if st[0] == "new"} | {"v0"}
        ext = ".dyon" if self.via == "load" else ""
        srcs = [dict(s, file="main.dyon" if i == 0 else "s%d%s" % (i, ext)) for i, s in enumerate(self.srcs)]
        return {"srcs": srcs, "vars": sorted(vs), "names": [list(n) for n in self.names()]}

    def job(self):
        j = {"src": self.text(0)}
        if self.via == "load":
            j["files"] = {"s%d.dyon" % i: self.text(i) for i in range(1, len(self.srcs))}
        return j

    def where(self, msg):
        """what a message shows: lines with statements that fail, and the calls"""
        tr = []
        for l in msg.split("\n"):
            c = re.match(r"^([^\s(]+)(\(.*\))? \((\S+)\)$", l)
            if not c: break
            tr.append([c.group(1), c.group(3)])
        return {"at": [int(x) for x in re.findall(r"^\d+,\d+: +probe\(e9_\d+\[(\d+)\]\)$", msg, re.M)], "tr": tr}

    def show(self):
        """for people: every source"""
        return "\n".join("--- %s\n%s" % ("main" if i == 0 else "s%d" % i, self.text(i)) for i in range(len(self.srcs)))

    def text(self, i):
        s = self.srcs[i]
        o = []
        if s["ns"]:
            o.append("ns " + "::".join(s["ns"]))
        for u in s["uses"]:
            fs = ""
            if u["fns"]:
                fs = "::{" + ", ".join(a if a == b else "%s as %s" % (a, b) for a, b in u["fns"]) + "}"
            o.append("use %s%s as %s" % ("::".join(u["names"]), fs, u["alias"]))
        for f in s["fns"]:
            o.append(self.fn(f))
        return "\n".join(o) + "\n"

    def fn(self, f):
        muts = f["name"][1].strip("()").split(",") if f["name"][1] else []
        args = ", ".join(("mut " if k < len(muts) and muts[k] == "mut" else "") + "x%d" % k for k in range(f["n"]))
        if f["name"][0] == "kk":
            o = ["fn kk() -> \\() -> f64 {", "    return \\() = {"]
            for k, st in enumerate(f["body"]):
                o += ["        " + l for l in self.st(st, k)]
            return "\n".join(o + ["        %d" % f["tag"], "    }", "}"])
        o = ["fn %s(%s)%s {" % (f["name"][0], args, " -> f64" if f["ret"] else "")]
        for k, st in enumerate(f["body"]):
            o += ["    " + l for l in self.st(st, k)]
        if f["ret"]:
            o.append("    return %d" % f["tag"])
        return "\n".join(o + ["}"])

    def call(self, alias, name, n, k):
        muts = name[1].strip("()").split(",") if name[1] else []
        pre, args = [], []
        for i in range(n):
            if i < len(muts) and muts[i] == "mut":
                pre.append("y%d_%d := 7" % (k, i))
                args.append("mut y%d_%d" % (k, i))
            else:
                args.append("7")
        return pre, "%s%s(%s)" % (alias + "::" if alias else "", name[0], ", ".join(args))

    def st(self, st, k):
        t = st[0]
        if t == "p":
            return ["probe(%d)" % st[1]]
        if t in ("c", "r", "g"):
            pre, c = self.call(st[1], st[2], st[3], k)
            if t == "r":
                c = "probe(%s)" % c
            if t == "g":
                pre += ["t%d := go %s" % (k, c)]
                c = "probe(unwrap(join(thread: t%d)))" % k
            return pre + [c]
        if t == "k":
            return ["h%d := %skk()" % (k, st[1] + "::" if st[1] else ""), "probe(\\h%d())" % k]
        if t == "kc":
            return ['h%d := call_ret(unwrap(%s), "kk", [])' % (k, st[1]), "probe(\\h%d())" % k]
        if t == "lz":
            return ["probe(%sunwrap_or(some(1), boom(2)))" % (st[1] + "::" if st[1] else "")]
        if t == "new":
            _, v, src, ims, tr, usetr = st
            flags = ""
            if tr or not usetr or (src + len(ims)) % 3 == 0:      # the long form with the same meaning
                flags = ", tr: %s, usetr: %s" % (str(tr).lower(), str(usetr).lower())
            ims = ", ".join("unwrap(%s)" % i for i in ims)
            if self.via == "load":
                if not ims and not flags and src % 2:
                    return ['%s := load("s%d.dyon")' % (v, src - 1), "probe(is_ok(%s))" % v]
                return ['%s := load(source: "s%d.dyon", imports: [%s]%s)' % (v, src - 1, ims, flags), "probe(is_ok(%s))" % v]
            return ["%s := module(in: \"s%d\", string: %s, imports: [%s]%s)" % (v, src - 1, json.dumps(self.text(src - 1)), ims, flags),
                    "probe(is_ok(%s))" % v]
        if t == "ck":
            _, src, ims, usetr = st
            ims = ", ".join("unwrap(%s)" % i for i in ims)
            fl = "" if usetr and src % 2 else ", usetr: %s" % str(usetr).lower()
            return ["w%d := check(in: \"s\", string: %s, imports: [%s]%s)" % (k, json.dumps(self.text(src - 1)), ims, fl),
                    "probe(is_ok(w%d))" % k]
        if t in ("cm", "cr"):
            _, v, nm, n = st
            c = "(unwrap(%s), \"%s\", [%s])" % (v, nm[0] + nm[1], ", ".join("7" for _ in range(n)))
            return ["call" + c if t == "cm" else "probe(call_ret%s)" % c]
        if t == "fs":
            return ["l%d := functions(module: unwrap(%s))" % (k, st[1]),
                    'probe(sift i {if l%d[i].type == "loaded" {clone(l%d[i].name)} else {continue}})' % (k, k)]
        if t == "tb":
            return ["q%d := try {" % k]
        if t == "te":
            return ["    1", "}", "probe(is_ok(q%d))" % st[1]]
        if t == "er":
            return ["e9_%d := [0]" % k, "probe(e9_%d[%d])" % (k, st[1])]
        raise ValueError(t)

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.srcs = []
        self.tag = 100
        self.vars = 0
        self.odd = self.r.random() < 0.35        # may be rejected or fail

    def ch(self, p): return self.r.random() < p

    def fresh(self):
        self.tag += 1
        return self.tag

    def calls(self, caller, own, avail, uses, n):
        """avail: list of (name pair, n, ret, ns) before the own ones, in order."""
        r, out = self.r, []
        lim = ORDER.index(caller)
        below = lambda nm: nm in ORDER and ORDER.index(nm) < lim
        for _ in range(n):
            x = r.random()
            if x < 0.15:
                out.append(["p", self.fresh()])
            elif x < 0.19:
                al = r.choice([""] + [u["alias"] for u in uses if u["names"] == ["std"] and (not u["fns"] or u["fns"] == [["unwrap_or", "unwrap_or"]])])
                out.append(["lz", al])
            elif x < 0.6 or not uses:
                c = {(f[0], f[1], f[2]) for f in avail + own if below(f[0][0])}
                if self.odd and self.ch(0.08):
                    nm = r.choice([k for k in SIG if below(k)] or ["pr"])
                    if below(nm): c = {((nm, SIG[nm][0]), SIG[nm][1], SIG[nm][2])}
                if c:
                    self.use(out, "", r.choice(sorted(c)))
            else:
                u = r.choice(uses)
                c = set()
                for f in avail + [(("pr", ""), 1, True, ("host",)), (("probe", ""), 1, False, ("host",))]:
                    if list(f[3]) != u["names"]: continue
                    if not u["fns"]:
                        c.add((f[0], f[1], f[2]))
                    for a, b in u["fns"]:
                        if a == f[0][0]: c.add(((b, f[0][1]), f[1], f[2]))
                c = {x for x in c if below(x[0][0]) or x[0][0] in ("pr", "probe")}
                if self.odd and self.ch(0.08) and lim > 2:
                    nm = r.choice([k for k in SIG if below(k)])
                    c = {((nm, SIG[nm][0]), SIG[nm][1], SIG[nm][2])}
                if c:
                    self.use(out, u["alias"], r.choice(sorted(c)))
        return out

    def use(self, out, alias, f):
        r = self.r
        name, n, ret = f
        if name[0] == "kk":
            out.append(["k", alias, list(name), 0])
            return
        if self.odd and self.ch(0.03): n = r.choice([0, 1, 2]) if not name[1] else n
        if self.odd and self.ch(0.02): ret = not ret
        kind = r.choice(["r", "r", "g"]) if ret else "c"
        out.append([kind, alias, list(name), n])

    def mkuses(self, avail):
        r, uses = self.r, []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            nss = sorted({f[3] for f in avail if f[3]}) + [("host",), ("std",)]
            ns = r.choice(nss if not (self.odd and self.ch(0.1)) else NSS[1:])
            fns = []
            if self.ch(0.45):
                have = sorted({f[0][0] for f in avail if f[3] == ns}) or {("host",): ["pr"], ("std",): ["unwrap_or"]}.get(ns, ["a"])
                for a in r.sample(have, min(len(have), r.choice([1, 1, 2]))):
                    up = [b for b in ORDER[:-2] if a in ORDER and ORDER.index(b) > ORDER.index(a) and b not in ("pr", "kk")]
                    fns.append([a, r.choice(up) if up and a != "kk" and self.ch(0.4) else a])
            uses.append({"names": list(ns), "alias": r.choice(ALIASES), "fns": fns})
        return uses

    def source(self, avail, depth, tr, trpre):
        """a new source; gives (index, its own functions as known to others)"""
        r = self.r
        ns = r.choice(NSS)
        names = r.sample(sorted(SIG), r.choice([1, 2, 2, 3, 3, 4]))
        names.sort(key=ORDER.index)
        uses = self.mkuses(avail)
        own, fns = [], []
        for nm in names:
            mu, n, ret = SIG[nm]
            if self.odd and nm != "kk" and self.ch(0.05): n, mu = r.choice([0, 1, 2]), ""
            if nm == "e" and self.ch(0.2): mu = ""
            own.append(((nm, mu), n, ret, ns))
        if self.odd and self.ch(0.03): own.append(own[0])
        for f in own:
            body = [["p", self.fresh()]] if self.ch(0.8) or not f[2] else []
            body += self.calls(f[0][0], own, avail, uses, r.choice([0, 1, 1, 2]))
            fns.append({"name": list(f[0]), "n": f[1], "ret": f[2], "tag": self.fresh(), "body": body})
        if depth < 3 and self.ch(0.45 if depth else 1):
            me = avail + own
            pre = me if tr else trpre
            b = self.calls("run", own, avail, uses, r.choice([0, 1])) + self.drive(depth + 1, pre, [])
            fns.append({"name": ["run", ""], "n": 0, "ret": False, "tag": 0, "body": b})
            own = own + [(("run", ""), 0, False, ns)]
        r.shuffle(fns)
        own.sort(key=lambda f: next(i for i, g in enumerate(fns) if tuple(g["name"]) == f[0]))
        self.srcs.append({"ns": list(ns), "uses": uses, "fns": fns})
        return len(self.srcs), own

    def drive(self, depth, trpre, _):
        """statements that load modules and call into them"""
        r, out, known = self.r, [], {}
        for _ in range(r.choice([2, 3, 4, 5] if depth < 2 else [1, 2, 3])):
            vs = sorted(known)
            ims = [r.choice(vs) for _ in range(r.choice([0, 1, 1, 2, 3]))] if vs else []
            tr, usetr = self.ch(0.4), self.ch(0.8)
            pre = list(trpre) if usetr else []
            avail = pre + [f for i in ims for f in known[i]]
            i, own = self.source(avail, depth, tr, pre)
            if self.ch(0.12):
                out.append(["ck", i + 1, ims, usetr])
            v = "v%d" % self.vars
            self.vars += 1
            out.append(["new", v, i + 1, ims, tr, usetr])
            known[v] = avail + own
            if self.ch(0.5): out.append(["fs", v])
            for _ in range(r.choice([0, 1, 2, 2])):
                w = r.choice(sorted(known))
                lim = ORDER.index("main" if depth == 0 else "run")
                c = [f for f in known[w] if ORDER.index(f[0][0]) < lim and f[0][0] != "pr"]
                run = [f for f in c if f[0][0] == "run"]
                if run and self.ch(0.6): c = run
                if not c: continue
                f = r.choice(c)
                if f[0][0] == "kk":
                    out.append(["kc", w, list(f[0]), 0])
                    continue
                n = f[1] if not (self.odd and self.ch(0.04)) else r.choice([0, 1, 2])
                nm = f[0] if not (self.odd and self.ch(0.04)) else (r.choice("abcdfg"), "")
                out.append(["cr" if f[2] != (self.odd and self.ch(0.05)) else "cm", w, list(nm), n])
        return out

    def make(self, via):
        r = self.r
        body = self.drive(0, [], [])
        fns = [{"name": ["main", ""], "n": 0, "ret": False, "tag": 0, "body": body}]
        if self.ch(0.4):
            fns.append({"name": ["a", ""], "n": 0, "ret": False, "tag": 0, "body": [["p", 1]]})
            if self.ch(0.5): r.shuffle(fns)
        srcs = [{"ns": [], "uses": [], "fns": fns}] + self.srcs
        return Mods(srcs, via)

def gen(seed, via="module"):
    return G(seed).make(via)

def failing(ps, r):
    """the same with statements that fail in some places"""
    for p in ps:
        fs = [f for s in p.srcs for f in s["fns"]]
        for i in range(r.choice([1, 2, 3, 4])):
            b = r.choice(fs)["body"]
            b.insert(r.randrange(len(b) + 1), ["er", 9000 + i])
        for f in fs:
            if r.random() < 0.6: continue
            b = f["body"]
            ok = lambda k: 0 <= k < len(b) and b[k][0] in ("p", "c", "r", "g", "k", "kc", "lz", "cm", "cr", "fs", "er")
            cand = [k for k in range(len(b)) if ok(k)]
            if not cand: continue
            i = k = r.choice(cand)
            while ok(k) and r.random() < 0.5: k += 1
            if not ok(k): k -= 1
            b.insert(k + 1, ["te", i])
            b.insert(i, ["tb"])
    return ps

def F(name, n=0, ret=False, tag=0, body=(), mu=""):
    return {"name": [name, mu], "n": n, "ret": ret, "tag": tag, "body": [list(b) for b in body]}
def S(ns, fns, uses=()):
    return {"ns": list(ns), "uses": list(uses), "fns": fns}
def U(names, alias, *fns):
    return {"names": list(names), "alias": alias, "fns": [list(f) for f in fns]}

def uses_(k=None, r=None):
    """two modules and what a third one means by a name"""
    nss = [(), ("x",), ("x", "y")]
    forms = [U(("x",), "m"), U(("x", "y"), "m"), U(("x",), "m", ("a", "a")), U(("x", "y"), "m", ("a", "a")), U(("x",), "m", ("a", "c")),
             U(("x",), "m", ("e", "a")), U(("x", "y"), "m", ("e", "e")), U(("x",), "k"), U(("x", "y"), "m", ("a", "c"), ("e", "c")),
             U(("host",), "m", ("pr", "d")), U(("host",), "m")]
    uses = [[]] + [[a] for a in forms] + [[a, b] for a in forms for b in forms if a is not b]
    calls = [("c", "", ["a", ""], 0), ("c", "m", ["a", ""], 0), ("c", "m", ["c", ""], 0), ("c", "m", ["e", "(mut)"], 1), ("c", "m", ["c", "(mut)"], 1),
             ("c", "k", ["a", ""], 0), ("r", "m", ["pr", ""], 1), ("r", "m", ["d", ""], 1), ("c", "m", ["a", "(mut)"], 1), ("c", "x", ["a", ""], 0)]
    ims = [["v0", "v1"], ["v1", "v0"], ["v0"], ["v0", "v1", "v0"]]
    cases = [(na, nb, u, c, im, own) for na in nss for nb in nss for u in uses for c in calls for im in ims for own in (False, True)]
    if k and len(cases) > k: cases = r.sample(cases, k)
    out = []
    for na, nb, u, c, im, own in cases:
        fns = [F("b", body=[("p", 5), c])] + ([F("a", body=[("p", 9)])] if own else [])
        srcs = [S((), [F("main", body=[("new", "v0", 2, [], False, True), ("new", "v1", 3, [], False, True), ("new", "v2", 4, im, False, True),
                                       ("cm", "v2", ["b", ""], 0), ("fs", "v2")])]),
                S(na, [F("a", body=[("p", 1)]), F("e", 1, mu="(mut)", body=[("p", 2)])]),
                S(nb, [F("a", body=[("p", 3)]), F("e", 1, mu="(mut)", body=[("p", 4)])]),
                S((), fns, u)]
        out.append(Mods(srcs))
    return out

def layers(k=None, r=None):
    """the same name in each of three layers: who calls whom, over every way of importing"""
    bools = [False, True]
    cases = []
    for t1 in bools:
        for u1 in bools:
            for t2 in bools:
                for u2 in bools:
                    for h1 in bools:
                        for h2 in bools:
                            for kind in ("r", "g"):
                                for im in ([], ["v0"], ["v0", "v0"]):
                                    for im3 in ([], ["v1"], ["v1", "v2"], ["v2", "v1"]):
                                        cases.append((t1, u1, t2, u2, h1, h2, kind, im, im3))
    if k and len(cases) > k: cases = r.sample(cases, k)
    out = []
    for t1, u1, t2, u2, h1, h2, kind, im, im3 in cases:
        inner = [F("d", 1, True, 31, [("p", 30)] + ([("r", "", ["c", ""], 0)] if h1 else [])), F("a", body=[(kind, "", ["d", ""], 1)])]
        if h2: inner.append(F("c", 0, True, 33, [("p", 32)]))
        mid = [F("c", 0, True, 21, [("p", 20)]), F("a", body=[(kind, "", ["c", ""], 0), ("p", 22)]),
               F("run", body=[("new", "v1", 4, [], t2, u2), ("new", "v2", 5, [], False, u2), ("new", "v3", 6, im3, False, u2),
                              ("fs", "v1"), ("fs", "v3"), ("cm", "v3", ["b", ""], 0), ("cm", "v1", ["a", ""], 0)])]
        srcs = [S((), [F("main", body=[("new", "v0", 2, [], t1, True), ("new", "v4", 3, im, t1, u1), ("fs", "v4"), ("cm", "v4", ["a", ""], 0), ("cm", "v4", ["run", ""], 0)])]),
                S(("x",), [F("c", 0, True, 11, [("p", 10)]), F("f", 0, True, 13, [(kind, "", ["c", ""], 0)])]),
                S((), mid),
                S((), inner),
                S(("z",), [F("c", 0, True, 41, [("p", 40)])]),
                S((), [F("b", body=[("p", 50), (kind, "", ["c", ""], 0)])])]
        out.append(Mods(srcs))
    return out
