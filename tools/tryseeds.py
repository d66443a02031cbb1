#!/usr/bin/env python3
"""tryseeds.py [--no-demo] [--all] [ID...]: tries planted bugs against the demos, the tests and the checks.

Applies each patch to /repo, and undoes it. --all runs every check, not only that of the property."""
import glob, json, os, subprocess, sys, time

R = os.environ.get("PLOTLINE_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import plan

def sh(cmd, timeout=1200, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return None, "timeout"

args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
assert sh(["git", "-C", R, "status", "--porcelain"])[1] == "", R + " is dirty"
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    out = [i, m["property"]]
    demo = "--no-demo" not in sys.argv
    if demo:
        rc, t = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
        out.append(f"clean demo {rc}" + ("" if rc == 0 else " !!! " + t[-600:]))
    rc, t = sh(["git", "-C", R, "apply", d + "/patch.diff"])
    if rc != 0:
        print(i, "does not apply", t)
        continue
    try:
        if demo:
            # What build.sh and test.sh do, wherever the repository is.
            rc, t = sh(["cargo", "test", "--offline", "--workspace"], cwd=R)
            if rc != 0 or "12 passed" not in t:
                out.append("!!! does not build, or tests fail " + t[-1500:])
            rc, t = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
            out.append(f"patched demo {rc}" + (" !!! passes" if rc == 0 else "" if "panicked" in t or "assert" in t or rc not in (101,) else " ??? " + t[-300:]))
        for pid in (plan.PLAN if "--all" in sys.argv else [m["property"]]):
            if pid not in plan.PLAN:
                continue
            t0 = time.time()
            rc, t = sh(["python3", V + "/check.py", pid], timeout=900)
            caught = rc == 1 and f"VIOLATION property={pid} " in t
            if caught or pid == m["property"] or rc not in (0, 1):
                out.append(f"{pid}: {'caught' if caught else 'MISSED' if rc == 0 else f'rc={rc} ' + t[-700:]} {time.time()-t0:.0f}s")
                if caught:
                    out.append([l for l in t.splitlines() if l.startswith("  ") and "(" in l and "complete" not in l.lower()][-2:][0].strip())
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
    print(" | ".join(map(str, out)), flush=True)
