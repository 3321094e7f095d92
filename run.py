#!/usr/bin/env python3
"""run.py <property> [quick|thorough]      decide one property on /repo's current working tree
   run.py --replay <replay file>            re-execute a recorded counterexample

Builds the property's harnesses against /repo/include in several configurations, enumerates every suite of every
harness (each in its own process), replays any disagreement before reporting it, and writes evidence/<property>.json.
Exit 0: nothing found.  Exit 1 and a VIOLATION line: a violation that is not a listed known finding."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
KNOWN = os.path.join(VERIF, "known_findings.txt")
DEADLINE = {"quick": 780, "thorough": float(os.environ.get("VERIF_THOROUGH_SECONDS", "3300"))}

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # asserts on, sanitizers: assertion traps, memory errors and undefined behaviour are violations
    "san17": ["g++", "-std=c++17", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=1"] + SAN,
    "san20": ["g++", "-std=c++20", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=1"] + SAN,
    # asserts off, optimised: deeper bounds
    "rel20": ["g++", "-std=c++20", "-O2", "-DNDEBUG", "-DMC_SAN=0"],
    "rel17": ["g++", "-std=c++17", "-O2", "-DNDEBUG", "-DMC_SAN=0"],
    # another compiler, asserts on
    "clang20": ["clang++", "-std=c++20", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
    "clangsan17": ["clang++", "-std=c++17", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=1"] + SAN,
    "clang17": ["clang++", "-std=c++17", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
    # race detection
    "tsan17": ["g++", "-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-DMC_SAN=1", "-fsanitize=thread"],
    "clangtsan20": ["clang++", "-std=c++20", "-O1", "-g1", "-DNDEBUG", "-DMC_SAN=1", "-fsanitize=thread"],
    # plain, asserts on, fast
    "dbg20": ["g++", "-std=c++20", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
    # the latest dialect both compilers know: std::is_constant_evaluated becomes if consteval there
    "rel23": ["g++", "-std=c++23", "-O2", "-DNDEBUG", "-DMC_SAN=0"],
    "dbg23": ["g++", "-std=c++23", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
    "clang23": ["clang++", "-std=c++23", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
    "dbg17": ["g++", "-std=c++17", "-O1", "-DNAZARA_DEBUG", "-DMC_SAN=0"],
}
# evaluating a large table must not depend on how many steps an implementation takes
for _flags in CONFIGS.values():
    _flags += ["-fconstexpr-steps=30000000"] if _flags[0] == "clang++" else ["-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=4000000"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_sigtrap=0",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C.UTF-8")


LAUNCHERS = {}


def prop_text(pid):
    import props
    return next((p for p in props.P if p["id"] == pid), {"bounds": "", "assumptions": []})


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(VERIF, "mc"), os.path.join(VERIF, "harness")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fd:
                    h.update(fd.read())
    return h


def compile_one(src, cfg, defs, base_hash):
    cmd = CONFIGS[cfg] + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(VERIF, "mc"),
                             '-DMC_REPO="%s"' % REPO, '-DMC_DIR="%s"' % VERIF] + defs + \
        [os.path.join(VERIF, "harness", src)]
    key = hashlib.sha256((base_hash + "\0".join(cmd)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, key)
    if os.path.exists(out):
        os.utime(out)
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    for attempt in range(2):
        p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True, env=ENV)
        if p.returncode == 0:
            if tree_hash().hexdigest() != base_hash:
                return tmp, None  # a file changed while this was compiled: use it once, do not keep it under this name
            os.rename(tmp, out)
            return out, None
        if "Killed" not in p.stderr and "cannot allocate" not in p.stderr.lower():
            break
    return None, " ".join(cmd) + "\n" + p.stderr


def prune_cache():
    try:
        files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        files = [f for f in files if os.path.isfile(f)]
        files.sort(key=lambda f: -os.stat(f).st_mtime)
        total = 0
        for f in files:
            total += os.stat(f).st_size
            if total > 1500 << 20:
                os.unlink(f)
    except OSError:
        pass


def load_known(pid):
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            # known: property=C10 suite=<suite> key=<key> <what fails>
            parts = line.split(None, 4)
            d = dict(p.split("=", 1) for p in parts[1:4])
            if d["property"] == pid:
                known.append((d["suite"], d["key"], parts[4] if len(parts) > 4 else ""))
    return known


def launcher(binary):
    """the race detector of GCC does not start where addresses are randomised over too many bits"""
    if binary not in LAUNCHERS:
        p = subprocess.run([binary, "--list"], capture_output=True, text=True, env=ENV)
        LAUNCHERS[binary] = [binary] if p.stdout or "ThreadSanitizer" not in p.stderr else ["setarch", "-R", binary]
    return LAUNCHERS[binary]


def run_suite(binary, suite, extra, timeout):
    try:
        p = subprocess.Popen(launcher(binary) + ["--suite", suite] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             env=ENV, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            return {"status": "unfinished", "suite": suite}
        line = out.strip().splitlines()[-1] if out.strip() else ""
        return json.loads(line)
    except (ValueError, IndexError) as e:
        return {"status": "error", "suite": suite, "text": "no result: %r %s" % (e, err[:2000])}


def replay_file(pid, info):
    d = os.path.join(VERIF, ".replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, info["suite"], info["cfg"]))
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    return path


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return do_replay(args[1])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = args[2] if len(args) > 2 else None
    spec = registry.CHECKS[pid]
    t0 = time.time()
    deadline = t0 + DEADLINE[tier]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    base = tree_hash().hexdigest()
    jobs_n = int(os.environ.get("VERIF_JOBS", "8"))
    units = []
    for unit in spec["units"]:
        for cfg in unit["configs"] + (unit.get("thorough_configs", []) if tier == "thorough" else []):
            for part in unit.get("only_parts") or range(unit.get("parts", 1)):
                defs = ["-DMC_PART=%d" % part] + unit.get("defs", [])
                units.append((unit["src"], cfg, part, defs))
    known = load_known(pid)
    violations, results, unfinished = [], [], []

    def build(u):
        return u, compile_one(u[0], u[1], u[3], base)

    tier_flag = ["--thorough"] if tier == "thorough" else []

    def run_job(job):
        u, binary, suite = job
        extra = list(tier_flag)
        for s, k, _ in known:
            if s == suite or s == "*":
                extra += ["--known", k]
        left = deadline - time.time()
        if left < 5:
            return job, {"status": "unfinished", "suite": suite}
        r = run_suite(binary, suite, extra, left)
        if r["status"] in ("fail", "crash", "hang", "error"):
            # replay before report
            extra2 = extra + ["--replay"]
            if r.get("choices") and not r.get("is_point") and r["status"] != "error":
                rr = run_suite(binary, suite, extra + ["--choices", r["choices"]], 300)
                if rr["status"] in ("fail", "crash", "hang"):
                    r["replayed"] = True
                    for k in ("trace", "text", "key", "stderr"):
                        r[k] = rr.get(k, r.get(k))
                    r["status"] = rr["status"]
                    return job, r
            if r["status"] == "hang":
                extra2 += ["--hang", "120"]
            rr = run_suite(binary, suite, extra2, max(60, deadline - time.time()))
            if rr["status"] in ("fail", "crash", "hang"):
                r.update({k: rr.get(k, r.get(k)) for k in ("trace", "text", "key", "stderr", "status")})
                r["replayed"] = True
            elif rr["status"] == "ok":
                r = rr  # not reproducible: transient trouble of the sandbox
                r["note"] = "first run failed and did not reproduce"
            else:
                r["status"] = "error" if r["status"] == "error" else r["status"]
        return job, r

    with cf.ThreadPoolExecutor(jobs_n) as pool:
        pending = {pool.submit(build, u) for u in units}
        while pending:
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for fut in done:
                val = fut.result()
                if isinstance(val[0], tuple) and len(val[0]) == 4:
                    u, (binary, err) = val
                    if binary is None:
                        info = {"property": pid, "suite": "compile", "cfg": u[1], "src": u[0], "key": "does-not-compile",
                                "text": err[:6000]}
                        first = "; ".join([l for l in err.splitlines() if "error" in l][:2])
                        violations.append((info, "an operation of the public interface the property speaks about does not compile: " + first))
                        continue
                    names = subprocess.run(launcher(binary) + ["--list"], capture_output=True, text=True, env=ENV).stdout.split()
                    for s in names:
                        if only and only not in s:
                            continue
                        pending.add(pool.submit(run_job, (u, binary, s)))
                else:
                    (u, binary, suite), r = val
                    r["cfg"] = u[1]
                    r["src"] = u[0]
                    r["part"] = u[2]
                    results.append(r)
                    if os.environ.get("VERIF_VERBOSE"):
                        print("%-24s %-10s %-8s ex=%s st=%s tr=%s oc=%s cap=%s %.1fs" % (suite, u[1], r["status"], r.get("executions"), r.get("states"),
                              r.get("transitions"), r.get("outcomes"), r.get("capped"), r.get("wall", 0)), flush=True)
                    if r["status"] in ("fail", "crash", "hang", "error"):
                        info = {"property": pid, "suite": suite, "cfg": u[1], "src": u[0], "part": u[2], "defs": u[3], "tier": tier,
                                "status": r["status"], "key": r.get("key"), "text": r.get("text"), "choices": r.get("choices"),
                                "is_point": r.get("is_point"), "trace": r.get("trace"), "stderr": r.get("stderr")}
                        violations.append((info, r.get("text", "")))
                    elif r["status"] == "unfinished":
                        unfinished.append("%s/%s" % (suite, u[1]))
    prune_cache()

    known_hit = {}
    for r in results:
        for k in (r.get("known") or "").split():
            for s, key, what in known:
                if key == k and s in ("*", r["suite"]):
                    known_hit[(s, key)] = what
    for (s, k), what in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s suite=%s key=%s %s" % (pid, s, k, what))

    ok = [r for r in results if r["status"] == "ok"]
    samples = []
    for r in ok:
        for line in (r.get("samples") or "").splitlines():
            if len(samples) < 40:
                samples.append("%s/%s: %s" % (r["suite"], r["cfg"], line))
    if not samples:
        samples = ["%s/%s: %s executions" % (r["suite"], r["cfg"], r.get("executions")) for r in ok[:10]]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r.get("states", 0) for r in results),
            "transitions": sum(max(r.get("transitions", 0), 0) for r in results) or sum(r.get("executions", 0) for r in results),
            "traces_validated_against_impl": sum(r.get("executions", 0) for r in results),
            "samples": samples or ["none"],
            "distinct_outcomes": sum(r.get("outcomes", 0) for r in results),
            "suites": [{"suite": r["suite"], "config": r["cfg"], "status": r["status"], "executions": r.get("executions"),
                        "states": r.get("states"), "transitions": r.get("transitions"), "outcomes": r.get("outcomes"),
                        "capped": bool(r.get("capped")), "wall_s": r.get("wall")} for r in sorted(results, key=lambda r: (r["suite"], r["cfg"]))],
            "configurations": {c: " ".join(CONFIGS[c]) for c in sorted({u[1] for u in units})},
            "bounds": prop_text(pid)["bounds"],
            "exhaustive": not unfinished and not any(r.get("capped") for r in results),
            "unfinished_suites": unfinished,
            "known_findings_hit": sorted("%s/%s" % k for k in known_hit),
        },
        "assumptions": prop_text(pid)["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        for info, text in violations[:10]:
            path = replay_file(pid, info)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s/%s [%s] %s" % (info["suite"], info["cfg"], info.get("key"), (text or "").strip()[:600]))
            if info.get("choices"):
                print("  execution: %s" % info["choices"][:300])
            if info.get("trace"):
                print("  trace:\n    " + "\n    ".join(info["trace"].strip().splitlines()[-25:]))
            elif info.get("stderr"):
                print("  stderr: " + info["stderr"].strip()[:700])
        return 1
    print("OK property=%s tier=%s executions=%d states=%d wall=%.1fs%s" % (
        pid, tier, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"], ev["wall_s"],
        " unfinished=%d" % len(unfinished) if unfinished else ""))
    return 0


def do_replay(path):
    info = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    if info["suite"] == "compile":
        binary, err = compile_one(info["src"], info["cfg"], ["-DMC_PART=0"], tree_hash().hexdigest())
        print(err or "compiles now")
        return 1 if err else 0
    binary, err = compile_one(info["src"], info["cfg"], info["defs"], tree_hash().hexdigest())
    if err:
        print(err)
        return 1
    extra = ["--replay"]
    if info.get("tier") == "thorough":
        extra.append("--thorough")
    if info.get("choices") and not info.get("is_point"):
        extra += ["--choices", info["choices"]]
    r = run_suite(binary, info["suite"], extra, 900)
    print(json.dumps({k: r.get(k) for k in ("status", "key", "text", "choices")}, indent=1))
    print(r.get("trace") or "")
    print((r.get("stderr") or "")[:3000])
    return 0 if r["status"] == "ok" else 1


if __name__ == "__main__":
    sys.exit(main())
