#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["observe_at"] = p["observe"] or ["public interface"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["id"] in registry.CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
na = [{"property": i, "reason": r} for i, r in getattr(props, "NA", [])]
json.dump({"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": na,
           "notes": "Checks compile /repo/include with harness/*.cpp on every run (cached by content hash in .build, which is ignored by git)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# DESIGN.md
T = os.path.join(V, "tools")
out = [open(T + "/design_head.md").read()]
for p in sorted(props.P, key=lambda p: p["id"]):
    spec = registry.CHECKS[p["id"]]
    out.append("### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
    out.append("* **For all:** %s. *Why tests cannot settle it:* %s\n" % (p["text"], p["why"]))
    out.append("* **Deciding method:** %s.%s\n" % (p["technique"], "" if p["note"].startswith("Every execution / state") else " " + p["note"]))
    out.append("* **Bounds (quick..thorough):** %s.\n" % p["bounds"])
    units = []
    for u in spec["units"]:
        units.append("`harness/%s` (%s%s)" % (u["src"], ", ".join(u["configs"]), "; " + " ".join(u["defs"]) if u.get("defs") else ""))
    out.append("* **Run on:** %s.\n" % "; ".join(units))
    out.append("* **Anchors:** %s.\n" % "; ".join("%s — %s" % (n, w) for n, w in p["mech"]))
    if p["assumptions"]:
        out.append("* **Assumptions:** %s.\n" % "; ".join(p["assumptions"]))
    out.append("\n")
out.append("""## 4. Planted bugs

Each directory of `seeded/` holds a change that compiles and passes the repository's tests, written from a property's text
and the code; a first version of the checks missed those marked *first missed*, and was strengthened.  Besides these, mutation
batches (every operator, constant, condition, narrowing and statement mutant of a header that survives the repository's tests) were run over
the headers; survivors were examined one by one, and are either equivalent or led to a stronger suite.  `tools/sweep.py` re-runs them all.

| Planted bug | Property | What it breaks | Needs | Caught by |
|---|---|---|---|---|
""")
sweep = json.load(open(T + "/sweep.json")) if os.path.exists(T + "/sweep.json") else {}
missed = set(open(T + "/first_missed.txt").read().split()) if os.path.exists(T + "/first_missed.txt") else set()
for n in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    s = sweep.get(n)
    clean = lambda t: t.replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s | %s%s |\n" % (n, m["property"], clean(m["what_it_breaks"]), clean(m["needs"]),
               ("missed" if s and not s["caught"] else "`%s`" % s["by"] if s else "its property's check"), " (*first missed*)" if n in missed else ""))
out.append(open(T + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
