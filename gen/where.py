"""Programs that end with an error, to see whether the error says where it happened."""
import copy
import fam, rnd
from ir import *

def tries(p, main=False):
    """All `try` nodes of a program, as (holder, key) pairs."""
    out = []
    def walk(d):
        if isinstance(d, dict):
            if "_un" in d: return
            for k, v in d.items():
                if k[0] == "_" or d["k"] == "clos" and k == "a": continue
                if isinstance(v, dict) and v.get("k") == "try": out.append((d, k))
                walk(v)
        elif isinstance(d, list):
            for i, v in enumerate(d):
                if isinstance(v, dict) and v.get("k") == "try": out.append((d, i))
                walk(v)
    walk([f.body for f in p.fns if (f.name == "main") == main])
    return out

def untried(progs, count, r):
    """Programs with the `try` of main and at most one other taken away."""
    cand = [(p, i) for p in progs for i in range(-1, len(tries(p)))]
    r.shuffle(cand)
    out = []
    for p, i in cand[:count]:
        q = copy.deepcopy(p)
        for h, k in tries(q, True) + (tries(q)[i:i + 1] if i >= 0 else []):
            h[k] = h[k]["a"][0]
        out.append(q)
    return out

def families(count, r):
    ps = []
    for nm in ("errors", "err_state", "calls", "closures", "currents", "stdlib", "vectors", "links", "lazies", "returns", "secrets", "secret_why_rejects"):
        ps += fam.pack(getattr(fam, nm)(), 1)
    # `?` in a function without a result: where that fails is not specified
    ps = [p for p in ps if not any(f.name == "nv" for f in p.fns)]
    return untried(ps, count, r)


def operators():
    """Every operator with every two kinds of values, at the end of calls of different kinds."""
    vs = list(fam.opvals().values())
    out = []
    for op in fam.BIN + ["neg", "not", "len", "=", "+=", "-=", "*=", "[]"]:
        for x in vs:
            for y in (vs if op not in ("neg", "not", "len") else vs[:1]):
                if op in fam.BIN and not fam.op_dom(op, x, y): continue
                if op in ("+=", "-=", "*=") and not fam.op_dom(op[0], x, y): continue
                if op == "neg" and (fam._k(x)[0] in ("v", "m") or x["k"] == "lit" and x["v"] == ["n", 0]): continue
                a, b = decl("x", prim("dynv", copy.deepcopy(x))), decl("y", prim("dynv", copy.deepcopy(y)))
                if op in fam.BIN: e = prim(op, var("x"), var("y"))
                elif op in ("neg", "not", "len"): e = prim(op, var("x"))
                elif op == "[]": e = prim("clone", item("x", [E(var("y"))]))
                else: e = None
                st = [a, b, decl("z", e) if e else asg(op, "x", [], var("y")), ret(n(1))]
                k = len(out) % 4
                if k == 0: fs = [Fn("f", [], block(*st)), Fn("main", [], block(decl("r", call("f")), probe(var("r"))), rets=False)]
                elif k == 1: fs = [Fn("main", [], block(decl("c", clos([], block(*st[:-1], n(1)))), decl("r", callc("c", [])), probe(var("r"))), rets=False)]
                elif k == 2: fs = [Fn("f", ["k"], block(if_(prim("==", var("k"), n(0)), block(*st)), ret(call("f", prim("-", var("k"), n(1)))))),
                                   Fn("main", [], block(decl("r", call("f", n(2))), probe(var("r"))), rets=False)]
                else: fs = [Fn("f", [], block(*st)), Fn("g", [], block(decl("q", prim("+", n(1), call("f"))), ret(prim("clone", var("q"))))),
                            Fn("main", [], block(decl("r", forn("sum", "i", None, n(2), block(prim("+", var("i"), call("g"))))), probe(var("r"))), rets=False)]
                out.append(Prog(fs))
    return out
