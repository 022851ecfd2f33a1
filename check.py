#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself could not be carried out."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import core
import props

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(core.WORK, exist_ok=True)
    ctx = core.Ctx(pid, tier, seed)
    try:
        props.CHECKS[pid](ctx)
    except core.ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    ev = ctx.evidence(time.time() - t0)
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if ctx.violations:
        for v in ctx.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, v))
        with open(ctx.violations[0]) as f:
            print(f.read(4000))
        return 1
    if core.SLOWEST[0] > 3000:
        print("slowest program: %d ms" % core.SLOWEST[0])
        if os.environ.get("SHOW_SLOW"):
            print(core.SLOWEST[1]["src"])
    print("OK property=%s tier=%s %s wall=%.1fs" % (pid, tier, json.dumps({k: v for k, v in ev["coverage"].items()
                                                     if isinstance(v, int)}), time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
