"""Builds the harness, runs jobs in the real interpreter, has TLC judge them."""
import json, os, re, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.environ.get("VERIF_WORK") or os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CPUS = os.cpu_count() or 4

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode(errors="replace")
    return e

def build(variant="default"):
    """Compiles the harness against /repo's working tree; gives the path of the program."""
    target = os.path.join(WORK, "target")
    os.makedirs(WORK, exist_ok=True)
    args = ["cargo", "build", "--offline", "--quiet"]
    if variant != "default":
        # bare: none of the optional features; async: threads are tasks of tokio, no debug look-up
        target += "-" + variant
        args += ["--no-default-features"] + (["--features", "rest,async"] if variant == "async" else [])
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = "-Awarnings"
    r = subprocess.run(args, cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stderr[-4000:])
    return os.path.join(target, "debug", "dynh")

PATIENT = 60000
SLOWEST = (0, None)
def run_pool(exe, jobs, tag, timeout=20000, workers=CPUS):
    jf, of = os.path.join(WORK, tag + ".jobs"), os.path.join(WORK, tag + ".out")
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    r = subprocess.run([exe, "pool", jf, of, "--workers", str(workers), "--timeout", str(timeout)],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("pool: " + r.stderr[-2000:])
    res = {}
    with open(of) as f:
        for line in f:
            d = json.loads(line)
            res[d["id"]] = d
    for j in jobs:
        if j["id"] not in res:
            raise ToolError("no result for job %s" % j["id"])
        global SLOWEST
        if res[j["id"]].get("ms", 0) > SLOWEST[0]:
            SLOWEST = (res[j["id"]]["ms"], j)
    os.remove(jf); os.remove(of)
    # A program that took too long can be one that is slow to parse on a busy
    # machine: it gets a second chance with no other one running.
    slow = [j for j in jobs if res[j["id"]]["end"] == "timeout"]
    if slow and timeout < PATIENT :
        again = run_pool(exe, slow[:3], tag + "-again", PATIENT, workers=1)
        if all(again[j["id"]]["end"] != "timeout" for j in slow[:3]):
            if len(slow) > 3:
                again.update(run_pool(exe, slow[3:], tag + "-again", PATIENT, workers=2))
            skipped = [j for j in jobs if res[j["id"]]["end"] == "skip"]
            if skipped:
                again.update(run_pool(exe, skipped, tag + "-again", timeout, workers))
        res.update(again)
    return res

VERD = re.compile(r'^<<"V", (\d+), "(.*?)", ')

def tlc(module, cfg, envv=None, workers=None, extra=(), heap="8g", timeout=3000):
    meta = os.path.join(WORK, "meta-%d-%d" % (os.getpid(), time.time_ns()))
    e = dict(os.environ)
    e.update(envv or {})
    # big sequences print on one line
    e["JAVA_TOOL_OPTIONS"] = ""
    os.makedirs(meta)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.tool.impl.Tool.cdot=true",
           "-cp", TLA + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
           "tlc2.TLC", "-config", cfg, "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr

def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def join_verdicts(out):
    """PrintT wraps long values: glue the lines of a verdict together."""
    res, cur = [], None
    for line in out.splitlines():
        if line.startswith('<<"V", ') or line.startswith('<< "V",'):
            if cur is not None:
                res.append(cur)
            cur = line.replace('<< "V",', '<<"V",')
        elif cur is not None:
            if line.startswith("  ") or line.startswith("   "):
                cur += " " + line.strip()
            else:
                res.append(cur); cur = None
    if cur is not None:
        res.append(cur)
    return res

def validate(jobs, tag, module="DyonTrace.tla", cfg="DyonTrace.cfg"):
    """jobs: dicts with what the trace specification needs.  Gives
    {id: [(verdict, detail)]} and (generated, distinct)."""
    jf = os.path.join(WORK, tag + ".trace")
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    rc, out = tlc(module, cfg, {"JOBS": jf})
    if "Model checking completed. No error has been found" not in out:
        keep = os.path.join(WORK, tag + ".tlc.log")
        open(keep, "w").write(out)
        i = out.find("Error:")
        raise ToolError("TLC (%s, %s): %s" % (module, keep, out[i:i + 1500] if i >= 0 else out[-1500:]))
    os.remove(jf)
    res = {}
    for l in join_verdicts(out):
        m = VERD.match(l)
        if m:
            res.setdefault(int(m.group(1)), []).append((m.group(2), l))
    for j in jobs:
        if j["id"] not in res:     # every run of the specification waits forever
            res[j["id"]] = [("bad: the specification has no such run", "")]
    return res, tlc_stats(out)

class Ctx:
    """What one run of a check has done and found."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.violations, self.known = [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "programs": 0,
                    "outside_domain": 0, "samples": []}
        self.fams = {}
        self.exes = {}
        self.level = "model_checking"

    def exe(self, variant="default"):
        if variant not in self.exes:
            self.exes[variant] = build(variant)
        return self.exes[variant]

    def violation(self, name, what, body):
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.txt" % (self.pid, name.replace("/", "_"), len(self.violations)))
        with open(p, "w") as f:
            f.write(what + "\n\n" + body)
        self.violations.append(p)

    def stats(self, fam, st, n, oods=0, sample=None):
        self.cov["transitions"] += st[0]
        self.cov["states"] += st[1]
        self.cov["traces_validated_against_impl"] += n
        self.cov["outside_domain"] += oods
        f = self.fams.setdefault(fam, {"traces": 0, "states": 0, "outside_domain": 0})
        f["traces"] += n
        f["states"] += st[1]
        f["outside_domain"] += oods
        if sample and len(self.cov["samples"]) < 6:
            self.cov["samples"].append(sample)

    def evidence(self, wall):
        c = dict(self.cov)
        c["families"] = self.fams
        if not c["samples"]:
            c["samples"] = ["(none)"]
        return {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
                "level": self.level, "coverage": c, "wall_s": round(wall, 2), "violations": len(self.violations)}

    # ---------------------------------------------------------------- programs
    def programs(self, fam, progs, variant="default", timeout=20000, must_load=True, batch=3000, places=False):
        """progs: list of Prog.  Each one has to load, and to do what the
        specification says."""
        exe = self.exe(variant)
        for lo in range(0, len(progs), batch):
            part = progs[lo:lo + batch]
            srcs = [p.marked() if places else p.source() for p in part]
            res = run_pool(exe, [{"id": i, "src": s} for i, s in enumerate(srcs)], self.pid + "-" + fam, timeout)
            self.cov["programs"] += len(part)
            jobs = []
            for i, p in enumerate(part):
                r = res[i]
                if r["load"] == "skip":
                    continue
                if r["load"] != "ok":
                    if must_load:
                        self.violation(fam, "A correct program is not accepted:\n" + r.get("msg", ""), srcs[i])
                    continue
                if r["end"] not in ("ok", "err"):
                    self.violation(fam, "The interpreter stopped: %s\n%s" % (r["end"], r.get("msg", "")), srcs[i])
                    continue
                j = p.table()
                j.update(id=i, ev=r["ev"], end=r["end"], st=r["st"])
                if places and r["end"] == "err":
                    j["at"], j["tr"] = place(r["msg"], srcs[i])
                    self.fams.setdefault(fam, {"traces": 0, "states": 0, "outside_domain": 0}).setdefault("errors", 0)
                    self.fams[fam]["errors"] += 1
                jobs.append(j)
            if not jobs:
                continue
            verd, st = validate_safe(jobs, self.pid + "-" + fam)
            oods = 0
            for j in jobs:
                vs = verd[j["id"]]
                if any(v[0] == "good" for v in vs):
                    continue
                if any(v[0] == "ood" for v in vs):     # some run leaves what is specified: no verdict
                    oods += 1
                    continue
                bad = next(v for v in vs if v[0] != "ood")
                what = {"dang": "The program was accepted, but uses a variable that is gone"}.get(
                    bad[0], "Not a behaviour of the specification: " + bad[0])
                self.violation(fam, what + "\n" + bad[1] + "\nimplementation: end=%s %s\nobservations: %s" % (
                    j["end"], res[j["id"]].get("msg", ""), "\n  ".join(json.dumps(e) for e in j["ev"])), srcs[j["id"]])
            self.stats(fam, st, len(jobs) - oods, oods, {"family": fam, "program": srcs[jobs[0]["id"]],
                                                        "observed": jobs[0]["ev"][:20], "end": jobs[0]["end"]})

    def reprints(self, fam, progs):
        """Programs whose closures are replaced by what they print as."""
        import clo
        exe = self.exe()
        res = run_pool(exe, [{"id": i, "src": clo.printing(p).source()} for i, p in enumerate(progs)], self.pid + "-" + fam + "-print")
        out = []
        for i, p in enumerate(progs):
            if res[i]["load"] == "ok":
                if res[i]["end"] not in ("ok", "err"):
                    self.violation(fam, "The interpreter stopped: %s\n%s" % (res[i]["end"], res[i].get("msg", "")), clo.printing(p).source())
                    continue
                q = clo.printed(p, res[i]["ev"])
                if q: out.append(q)
        self.fams.setdefault(fam, {"traces": 0, "states": 0, "outside_domain": 0})["printed"] = len(out)
        self.programs(fam, out)

    def loads(self, fam, progs, batch=6000, run=True, module="DyonLoad", variant="default"):
        """The checker lets each program through exactly when the specification
        of its rules does; what it lets through is run."""
        exe = self.exe(variant)
        for lo in range(0, len(progs), batch):
            part = progs[lo:lo + batch]
            srcs = [p.source() for p in part]
            res = run_pool(exe, [{"id": i, "src": s, "run": run} for i, s in enumerate(srcs)], self.pid + "-" + fam)
            self.cov["programs"] += len(part)
            jobs = []
            for i, p in enumerate(part):
                r = res[i]
                if r["load"] not in ("ok", "err"):
                    self.violation(fam, "The checker stopped: %s\n%s" % (r["load"], r.get("msg", "")), srcs[i])
                    continue
                j = p.table()
                j.update(id=i, load=r["load"], threads=variant != "bare")
                jobs.append(j)
            verd, st = validate(jobs, self.pid + "-" + fam + "-load", module + ".tla", module + ".cfg")
            bad = set()
            for j in jobs:
                v = verd[j["id"]][0]
                if v[0] != "good":
                    bad.add(j["id"])
                    self.violation(fam, {"bad: accepted": "A program that breaks the rules is accepted",
                                         "bad: rejected": "A program that follows the rules is rejected"}.get(v[0], v[0])
                                   + "\n" + res[j["id"]].get("msg", ""), srcs[j["id"]])
            n = sum(j["load"] == "ok" for j in jobs)
            self.fams.setdefault(fam, {"traces": 0, "states": 0, "outside_domain": 0}).setdefault("accepted", 0)
            self.fams[fam]["accepted"] += n
            self.stats(fam, st, len(jobs), 0, {"family": fam, "program": srcs[0], "loaded": res[0]["load"]})
            if run:
                ok = [p for i, p in enumerate(part) if res[i]["load"] == "ok" and i not in bad]
                self.programs(fam + ", run", ok, variant=variant)

    def runs(self, fam, progs, module, batch=3000):
        """Runs of things with their own trace specification."""
        exe = self.exe()
        for lo in range(0, len(progs), batch):
            part = progs[lo:lo + batch]
            res = run_pool(exe, [dict(p.job(), id=i) for i, p in enumerate(part)], self.pid + "-" + fam)
            self.cov["programs"] += len(part)
            jobs = []
            for i, p in enumerate(part):
                r = res[i]
                if r["load"] == "skip":
                    continue
                if r["load"] not in ("ok", "err") or r["end"] not in ("ok", "err", "noload"):
                    self.violation(fam, "The interpreter stopped: %s\n%s" % (r["end"], r.get("msg", "")), p.show())
                    continue
                if r["load"] == "err" and hasattr(p, "ops"):
                    if not p.maybe:
                        self.violation(fam, "A correct program is not accepted:\n" + r.get("msg", ""), p.show())
                    continue
                j = p.table()
                j.update(id=i, ev=r["ev"], load=r["load"], end=r["end"], st=r.get("st", [0, 0, 0, 0]))
                if hasattr(p, "where"):
                    j.update(p.where(r.get("msg") or ""))
                jobs.append(j)
            if not jobs:
                continue
            verd, st = validate_safe(jobs, self.pid + "-" + fam, module + ".tla", module + ".cfg")
            oods = 0
            for j in jobs:
                v = verd[j["id"]][0]
                if v[0] == "ood":
                    oods += 1
                elif v[0] != "good":
                    self.violation(fam, "Not a behaviour of the specification: " + v[0] + "\n" + v[1] + "\nimplementation: end=%s %s\nobservations: %s" % (
                        j["end"], res[j["id"]].get("msg", ""), "\n  ".join(json.dumps(e) for e in j["ev"])), part[j["id"]].show())
            self.stats(fam, st, len(jobs) - oods, oods, {"family": fam, "program": part[jobs[0]["id"]].show()[:3000], "observed": jobs[0]["ev"][:20], "end": jobs[0]["end"]})
            self.fams[fam]["ended well"] = self.fams[fam].get("ended well", 0) + sum(j["end"] == "ok" for j in jobs)

def place(msg, source):
    """The line that an error message shows (0 if it is none of the source) and the calls that it lists."""
    m = re.findall(r"^(\d+),(\d+): (.*)$", msg, re.M)
    at = 0
    if len(m) >= 2:
        lines = source.split("\n")
        l = int(m[-2][0])
        if l <= len(lines) and lines[l - 1].strip() == m[-2][2].strip():
            at = l
    tr = []
    for l in msg.split("\n"):
        c = re.match(r"^([^\s(]+)(\(.*\))? \(\S+\)$", l)
        if not c: break
        tr.append(c.group(1))
    return at, tr

def validate_safe(jobs, tag, module="DyonTrace.tla", cfg="DyonTrace.cfg"):
    """As validate, but when what the implementation recorded is so far off that
    TLC cannot even compare it, the job at fault is found and judged bad."""
    try:
        return validate(jobs, tag, module, cfg)
    except ToolError as e:
        if "Attempted to" not in str(e) and "exception" not in str(e):
            raise
        if len(jobs) == 1:
            return {jobs[0]["id"]: [("bad: cannot be compared", str(e))]}, (0, 0)
    h = len(jobs) // 2
    a, b = validate_safe(jobs[:h], tag, module, cfg), None
    if any(v[0].startswith("bad: cannot") for vs in a[0].values() for v in vs):
        rest = {j["id"]: [("ood", "")] for j in jobs[h:]}
        rest.update(a[0])
        return rest, a[1]
    b = validate_safe(jobs[h:], tag, module, cfg)
    b[0].update(a[0])
    return b[0], (a[1][0] + b[1][0], a[1][1] + b[1][1])
