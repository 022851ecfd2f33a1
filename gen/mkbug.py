#!/usr/bin/env python3
"""mkbug.py FILE.py: writes seeded/<id>/ from definitions.
A definition: dict(id, prop, edits=[(file, old, new)], needs, breaks, script=dyon text, out=expected output)
or with demo=text of demo.sh (and files={name: text})."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs a script and compares what it prints.
here=$(cd "$(dirname "$0")" && pwd)
exe=$(ls -t target/debug/examples/dyonrun 2>/dev/null | head -1)
got=$(cd "$here" && timeout 60 "$OLDPWD/$exe" demo.dyon 2>&1)
[ "$got" == "$(cat "$here/expected.txt")" ] && exit 0
echo "got: $got"
exit 1
'''
REPO = os.environ.get("REPO", "/repo")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(old) == 1, (b["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for k, v in b.get("files", {}).items(): open(os.path.join(d, k), "w").write(v)
    if "script" in b:
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.dyon", "w").write(b["script"])
        if b.get("out") is None:
            r = subprocess.run("/repo/target/debug/examples/dyonrun demo.dyon 2>&1", shell=True, cwd=d, capture_output=True, text=True)
            b["out"] = r.stdout.rstrip("\n") + "\n"
            print(b["out"])
        open(d + "/expected.txt", "w").write(b["out"])
    else:
        open(d + "/demo.sh", "w").write(b["demo"])
    print("written", b["id"])
