"""Writes MANIFEST.json from plan.py."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan

NA = [
    dict(property="C21", reason=(
        "The plugin's code cannot be reached: its crate is no member of the workspace, it imports a trait the library no longer "
        "has, and its module is private with nothing of it exported, so no build of this repository contains it. Executing it symbolically would "
        "mean inventing the missing trait and the exports, and deciding that invention.")),
]

TECH = "symbolic execution of the compiled LLVM IR, assertions decided by z3"
CONC = TECH + ", over all interleavings within a preemption bound"

def bounds(p):
    out = []
    for r in p["runs"]:
        out.append(f"{r['entry']} {' '.join(f'{k}={v}' for k, v in r['quick'][0].items()) or '(no size)'}")
    return "; ".join(dict.fromkeys(out))

checks = []
for pid, p in plan.PLAN.items():
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 check.py {pid} --tier quick",
        thorough_cmd=f"python3 check.py {pid} --tier thorough",
        technique=CONC if any(r.get("threads") for r in p["runs"]) else TECH,
        level="model_checking",
        level_note=(
            "Every input (and schedule) within the bounds is decided, none beyond them. Mandatory bounds: " + bounds(p) +
            " (see plan.py for what the sizes mean and for the larger bounds explored as time allows; the evidence lists which were). "
            "Trusts rustc up to its LLVM IR, the symbolic executor in engine/ (whose paths are spot-checked natively) and z3 (spot-checked with cvc5).")))

m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
         notes="No hooks in /repo: the harness crates use its public interface. DESIGN.md explains the approach; plan.py holds the bounds; known-findings.txt the defects found.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
