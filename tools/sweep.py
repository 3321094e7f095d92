#!/usr/bin/env python3
"""sweep.py [names...]: applies every planted bug of seeded/ to a scratch worktree, runs its property's quick check and records
which suite caught it in tools/sweep.json (read by gen.py for DESIGN.md).  Not a check: no check uses it."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/nzsweep"
OUT = os.path.join(V, "tools", "sweep.json")
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
sh("git", "-C", "/repo", "worktree", "add", "--detach", W, "HEAD")
names = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for n in names:
    d = os.path.join(V, "seeded", n)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git", "-C", W, "checkout", "-q", "--", ".")
    p = sh("git", "-C", W, "apply", d + "/patch.diff")
    if p.returncode:
        res[n] = {"property": prop, "caught": False, "by": "does not apply"}
    else:
        c = sh("python3", "run.py", prop, "quick", cwd=V, env=dict(os.environ, VERIF_REPO=W))
        by = sorted(set(re.findall(r"^  ([a-z0-9_]+)/[a-z0-9]+ \[", c.stdout, re.M)))
        res[n] = {"property": prop, "caught": c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout, "by": ", ".join(by[:4])}
    print(n, res[n], flush=True)
    json.dump(dict(sorted(res.items())), open(OUT, "w"), indent=1)
for n in list(res):
    if not os.path.isdir(os.path.join(V, "seeded", n)): del res[n]
json.dump(dict(sorted(res.items())), open(OUT, "w"), indent=1)
sh("git", "-C", "/repo", "worktree", "remove", "--force", W)
