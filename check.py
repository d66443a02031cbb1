#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl over /repo's working tree.

    check.py ID [--tier quick|thorough]   decide one property (exit 0, or 1 with a VIOLATION line)
    check.py --setup                      build what the checks need, ahead of them
    check.py --replay FILE                run a recorded counterexample against the real code
    check.py --list                       the harnesses and bounds of every property

What is decided, and within which bounds, is in plan.py. Anything that keeps a property from being
decided (a build that fails, an instruction the executor does not know, a solver that gives up, a
counterexample that does not reproduce) is an error: exit 2, never a verdict.
"""

import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PLOTLINE_REPO", "/repo")
WORK = os.path.join(HERE, "work")
EVIDENCE = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(
    os.environ,
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Undecided(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    """Runs a command in a process group of its own; everything in it ends with it."""
    p = subprocess.Popen(
        cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
        start_new_session=True, **dict(dict(env=ENV), **kw))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# -- building --------------------------------------------------------------------------------------

def digest(*roots):
    """A digest of the sources: what is built is keyed by content, never by age."""
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work", "evidence", "seeded"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fd:
                        h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:16]


def target_dir(name, key):
    """The build directory for this content; those of other contents are removed."""
    d = os.path.join(WORK, f"{name}-{key}")
    os.makedirs(WORK, exist_ok=True)
    for x in os.listdir(WORK):
        if x.startswith(name + "-") and os.path.join(WORK, x) != d:
            shutil.rmtree(os.path.join(WORK, x), ignore_errors=True)
    return d


def cargo(what, args, cwd, target, timeout=600):
    args = ["cargo"] + args + ([] if target is None else ["--target-dir", target])
    for _ in range(2):
        rc, out = run(args, timeout, cwd=cwd)
        if rc == 0:
            break
    if rc != 0:
        raise Undecided(f"{what} does not build:\n{out[-4000:]}")


def engine():
    src = os.path.join(HERE, "engine")
    t = target_dir("engine", digest(src))
    exe = os.path.join(t, "release", "lsym")
    if not os.path.exists(exe):
        cargo("the symbolic executor", ["build", "--release", "--offline"], src, t)
    return exe


class Crate:
    """A harness crate: its LLVM IR, and its native replay binaries, from /repo's current sources."""

    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(HERE, "harness", name)
        self.key = digest(os.path.join(HERE, "harness"), REPO)
        self.target = target_dir(name, self.key)
        # Made here, lest two builds that run side by side make them both.
        os.makedirs(os.path.join(self.target, "native"), exist_ok=True)

    def ir(self):
        ll = os.path.join(self.target, "release", "deps", f"h{self.name}.ll")
        done = ll + ".done"
        if not os.path.exists(done):
            cargo(f"harness crate {self.name}", [
                "rustc", "--release", "--lib", "--crate-type", "cdylib", "--offline"] +
                ["--target-dir", self.target, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                self.dir, None)
            if not os.path.exists(ll):
                raise Undecided(f"no LLVM IR at {ll}")
            open(done, "w").close()
        return ll

    def replay(self, profile="release"):
        d = os.path.join(HERE, "harness", plan.REPLAY.get(self.name, self.name))
        t = os.path.join(self.target, "native")
        exe = os.path.join(t, "native" if profile == "release" else "debug", "replay")
        args = ["build", "--bin", "replay", "--offline"] + (["--profile", "native"] if profile == "release" else [])
        cargo(f"the replay binary of {self.name}", args, d, t)
        return exe

    def build(self):
        """The IR and the replay binary, side by side."""
        with ThreadPoolExecutor(2) as pool:
            ir, exe = pool.submit(self.ir), pool.submit(self.replay)
            return ir.result(), exe.result()


# -- one exploration -------------------------------------------------------------------------------

def explore(exe, ll, entry, level, time_s, cross):
    params = {k: v for k, v in level.items() if not k.startswith("_")}
    out = os.path.join(WORK, f"out-{os.getpid()}.json")
    crs = os.path.join(WORK, f"cross-{os.getpid()}.smt2")
    for f in (out, crs):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, ll, "--entry", entry, "--json", out, "--time", str(time_s), "--workers", str(os.cpu_count() or 8),
           "--preempt", str(level.get("_preempt", 2)), "--violations", "16", "--depth", str(level.get("_depth", 1500)),
           "--steps", str(level.get("_steps", 100_000_000))]
    if cross:
        cmd += ["--cross", str(cross), "--cross-file", crs]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    rc, text = run(cmd, time_s + 60)
    if rc is None or not os.path.exists(out):
        raise Undecided(f"{entry} {params}: the symbolic executor ended with {rc}\n{text[-2000:]}")
    with open(out) as fd:
        d = json.load(fd)
    os.remove(out)
    smt = ""
    if os.path.exists(crs):
        with open(crs) as fd:
            smt = fd.read()
        os.remove(crs)
    return d, smt


def second_opinion(smt):
    """Asks another solver the sampled queries. Returns how many it agreed on."""
    want = re.findall(r"; expect (sat|unsat)", smt)
    if not want:
        return 0, None
    f = os.path.join(WORK, f"cross-{os.getpid()}.smt2")
    with open(f, "w") as fd:
        fd.write(smt)
    try:
        for name, cmd in (("cvc5 1.1.2", ["cvc5", "--incremental", "--tlimit-per=2000", f]), ("z3-new", ["z3-new", f])):
            if not shutil.which(cmd[0]):
                continue
            # What it has answered by then counts.
            rc, out = run(cmd, 8)
            got = re.findall(r"^(sat|unsat|unknown)\s*$", out, re.M)
            if "(error" in out or len(got) > len(want) or not got:
                continue
            bad = [i for i, (w, g) in enumerate(zip(want, got)) if g != "unknown" and g != w]
            if bad:
                raise Undecided(f"{name} disagrees on {len(bad)} of {len(want)} sampled queries, the first being number {bad[0]}")
            return sum(1 for g in got if g != "unknown"), name
    finally:
        os.remove(f)
    return 0, None


def native(exe, entry, params, inputs, rounds=1, timeout=20):
    cmd = [exe, entry, "--input", ",".join(str(v) for v in inputs), "--rounds", str(rounds), "--seed", str(SEED)]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    # Files the harness makes are made, and removed, in a directory of its own.
    scratch = tempfile.mkdtemp(prefix="plotline-check-")
    os.chmod(scratch, 0o711)  # A harness may give up root's rights to read.
    try:
        return run(cmd, timeout, env=dict(ENV, TMPDIR=scratch, HOME=scratch, XDG_CONFIG_HOME=scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def reproduces(rc, out):
    """Whether a native run went wrong, and how."""
    if rc is None:
        return "it does not end"
    if rc in (0, 7):
        return None
    m = re.search(r"^FAILED (.*)$", out, re.M)
    if m:
        return m.group(1)
    if rc < 0:
        return f"it is ended by signal {-rc}"
    return f"it exits with {rc}"


# -- known findings --------------------------------------------------------------------------------

def known_findings():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


# -- deciding a property ---------------------------------------------------------------------------

def demangle(n):
    m = re.match(r"_R", n)
    if not m:
        return n
    parts = []
    i = 0
    for x in re.finditer(r"(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n):
        k = int(x.group(1))
        s = x.group(2)
        if 0 < k <= len(s):
            parts.append(s[:k])
    return "::".join(parts) if parts else n


def decide(pid, tier):
    t0 = time.time()
    prop = plan.PLAN[pid]
    say(f"{pid} [{tier}] {prop['title']}")
    exe = engine()
    budget = plan.BUDGET[tier]
    crates = {}
    totals = dict(paths=0, pruned=0, forks=0, steps=0, queries=0, sat=0, unsat=0, cached=0, solver_s=0.0,
                  order=0, confirmed=0, by_model=0, checks=0, by_solver=0)
    runs, samples, functions, validated, crossed, cross_by = [], [], {}, 0, 0, None
    findings = []
    build_s = 0.0
    spent = 0.0
    def one(run_):
        nonlocal build_s, spent, validated, crossed, cross_by, findings
        entry, cname = run_["entry"], run_.get("crate", prop["crate"])
        tb = time.time()
        if cname not in crates:
            c = Crate(cname)
            crates[cname] = (c, *c.build())
        c, ll, replay_exe = crates[cname]
        build_s += time.time() - tb
        levels = list(run_["quick"])
        if tier == "thorough":
            levels += run_.get("thorough", [])
        covered, unreproduced = set(), []
        for n, level in enumerate(levels):
            base = n == 0
            # The first level must be decided; the following ones are, as far as the budget goes.
            left = budget["total"] - spent
            if not base and left < 5:
                runs.append(dict(entry=entry, bounds=level, complete=False, reason="no time left"))
                break
            limit = min(budget["base"], max(30, budget["deadline"] - (time.time() - t0))) if base else min(budget["level"], left)
            params = {k: v for k, v in level.items() if not k.startswith("_")}
            d, smt = explore(exe, ll, entry, level, limit, budget["cross"])
            spent += d["wall_s"]
            s = d["solver"]
            say(f"  {entry} {level}: {'complete' if d['complete'] else 'INCOMPLETE'}, {d['paths']} paths, "
                f"{d['steps']} steps, {s['queries']} queries, {d['wall_s']:.1f} s")
            if d["violations"]:
                try:
                    findings += confirm(pid, c, replay_exe, entry, params, level, d["violations"])
                except Undecided as e:
                    # Another level may have one that does.
                    unreproduced.append(str(e))
                    continue
                if any(not f["known"] for f in findings):
                    return
                # Only known findings: the rest of what this level covers still counts.
            if d["unsupported"]:
                raise Undecided(f"{entry} {level}: the executor does not support {json.dumps(d['unsupported'])[:1500]}")
            if d["crashed"]:
                raise Undecided(f"{entry} {level}: the executor crashed")
            if s["unknown"]:
                raise Undecided(f"{entry} {level}: the solver gave up on {s['unknown']} queries")
            if not d["complete"] and not d["violations"]:
                if base:
                    raise Undecided(f"{entry} {level}: not decided within {limit} s")
                runs.append(dict(entry=entry, bounds=level, complete=False, reason=f"not decided within {limit:.0f} s", paths=d["paths"]))
                break
            covered |= {k for k, v in d["covers"].items() if v}
            for k, v in (("paths", "paths"), ("pruned", "pruned"), ("forks", "forks"), ("steps", "steps")):
                totals[k] += d[v]
            for k in ("queries", "sat", "unsat", "cached"):
                totals[k] += s[k]
            totals["solver_s"] += s["seconds"]
            totals["order"] += s["branches_by_order_facts"]
            totals["confirmed"] += s["of_those_confirmed"]
            totals["by_model"] += s["sides_shown_by_evaluated_model"]
            totals["checks"] += sum(x["evaluated"] for x in d["checks"].values())
            totals["by_solver"] += sum(x["by_solver"] for x in d["checks"].values())
            for name, size in d["functions"]:
                functions[name] = max(size, functions.get(name, 0))
            if smt:
                k, who = second_opinion(smt)
                crossed += k
                cross_by = who or cross_by
            # The executor against the machine: the same inputs, the same checks in the same order.
            for x in d["samples"][: budget["samples"]]:
                rc, out = native(replay_exe, entry, d["params"] | params, x["inputs"])
                bad = reproduces(rc, out)
                m = re.search(r"^OK ([0-9a-f]{16})", out, re.M)
                if bad or rc != 0 or not m or (x["switches"] == 0 and not run_.get("threads") and m.group(1) != x["events"]):
                    raise Undecided(
                        f"{entry} {level}: the executor and the machine disagree on inputs {x['inputs']}: "
                        f"{bad or out.strip()[-300:]} (expected events {x['events']})")
                validated += 1
            runs.append(dict(
                entry=entry, what=run_["what"], bounds=level, complete=True, paths=d["paths"], forks=d["forks"], ir_instructions=d["steps"],
                queries=s["queries"], solver_s=s["seconds"], wall_s=d["wall_s"], parameters=d["params"],
                assertions={k: v["evaluated"] for k, v in d["checks"].items()}, reached=d["covers"]))
            for x in d["samples"][:2]:
                samples.append(dict(entry=entry, bounds=level, path=x["path"], path_constraints=x["constraints"],
                                    ir_instructions=x["steps"], witness_inputs=x["inputs"]))
        if unreproduced and not findings:
            raise Undecided("; ".join(unreproduced))
        missing = set(run_.get("covers", ["end"])) - covered
        if missing and not findings:
            raise Undecided(f"{entry}: never reached {sorted(missing)}, so it shows nothing")

    # What cannot be decided in one run does not keep another from finding a violation.
    troubles = []
    for run_ in prop["runs"]:
        try:
            one(run_)
        except Undecided as e:
            say(f"  undecided: {e}")
            troubles.append(str(e))
        if any(not f["known"] for f in findings):
            return report(pid, tier, t0, findings, totals, runs)
    if troubles:
        raise Undecided(f"{len(troubles)} of {len(prop['runs'])} runs are undecided")
    own = {n: s for n, s in functions.items() if re.search(r"8plotline|plotline_|12plotline_cli", n)}
    coverage = dict(
        states=totals["paths"] + totals["pruned"],
        transitions=totals["steps"],
        traces_validated_against_impl=validated,
        samples=samples[:24],
        explanation=(
            "states: symbolic paths explored to their end, each standing for every input (and, with threads, the "
            "one schedule) that follows it; transitions: LLVM IR instructions executed symbolically; "
            "traces_validated_against_impl: paths whose witness inputs were also run natively and passed the same "
            "checks in the same order"),
        exhaustive=all(r["complete"] for r in runs),
        forks=totals["forks"],
        queries_discharged=totals["queries"], queries_sat=totals["sat"], queries_unsat=totals["unsat"],
        queries_from_cache=totals["cached"], solver_s=round(totals["solver_s"], 3),
        branches_settled_by_order_facts=totals["order"], of_those_also_asked_to_the_solver=totals["confirmed"],
        branch_sides_shown_by_a_model_in_hand=totals["by_model"],
        assertions_evaluated=totals["checks"], assertions_decided_by_solver=totals["by_solver"],
        sampled_queries_confirmed_by_second_solver=crossed, second_solver=cross_by,
        functions_encoded=len(functions),
        functions_of_the_repository_encoded=sorted({demangle(n) for n in own})[:200],
        functions_of_the_repository_count=len(own),
        runs=runs,
        build_s=round(build_s, 1),
        repository_digest=digest(REPO),
    )
    kn = [f for f in findings if f["known"]]
    for f in kn:
        say(f"KNOWN-FINDING: property={pid} {f['known']}")
    write_evidence(pid, tier, coverage, time.time() - t0, 0, prop)
    say(f"{pid}: holds on everything explored ({totals['paths']} paths, {totals['queries']} queries, "
        f"{time.time() - t0:.0f} s)")
    return 0


def confirm(pid, c, replay_exe, entry, params, level, violations):
    """Runs each counterexample against the real code, natively."""
    known = [k for k in known_findings() if k["property"] == pid and k["entry"] == entry]
    out, ghosts = [], []
    end = time.time() + 180
    for v in violations:
        if ghosts and time.time() > end:
            break
        inputs = [int(x[0]) for x in v["inputs"]]
        threaded = bool(v["sched"])
        k = next((k for k in known if k["label"] == v["label"] and matches(k, inputs)), None)
        if k:
            out.append(dict(known=k["what"], v=v))
            continue
        exes = [("release", replay_exe)]
        how = None
        for profile in ("release", "dev"):
            exe = replay_exe if profile == "release" else c.replay("dev")
            rc, text = native(exe, entry, params, inputs, rounds=20000 if threaded else 1, timeout=60 if threaded else 20)
            bad = reproduces(rc, text)
            if bad:
                how = (profile, bad)
                break
            if rc == 7:
                ghosts.append(f"{v['label']} on {inputs}: {text.strip()[-200:]}")
        if how is None:
            ghosts.append(f"{v['label']} ({v['kind']}) on {inputs} schedule {v['sched']}: does not reproduce natively")
            continue
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replay", f"{pid}-{entry}.json")
        with open(path, "w") as fd:
            json.dump(dict(
                property=pid, crate=c.name, entry=entry, params=params, inputs=inputs, schedule=v["sched"], label=v["label"],
                kind=v["kind"], panic=v["panic"], natively=how[1], profile=how[0], bounds=level,
                command=f"python3 {os.path.join(HERE, 'check.py')} --replay {path}"), fd, indent=1)
        out.append(dict(known=None, v=v, path=path, how=how, entry=entry))
        return out
    if not out:
        raise Undecided(f"{entry} {level}: counterexamples that do not reproduce against the real code: " + "; ".join(ghosts)[:3000])
    return out


def matches(k, inputs):
    """A known finding names the inputs it is about, as a Python expression over them."""
    try:
        return bool(eval(k["when"], {"__builtins__": {}}, {"i": inputs, "any": any, "all": all, "len": len}))
    except Exception:
        return False


def report(pid, tier, t0, findings, totals, runs):
    for f in findings:
        if f["known"]:
            say(f"KNOWN-FINDING: property={pid} {f['known']}")
            continue
        v = f["v"]
        say(f"  {f['entry']}: {v['label']} ({v['kind']}{': ' + v['panic'] if v['panic'] else ''})")
        say(f"  inputs {[x[0] for x in v['inputs']]}; natively ({f['how'][0]} build): {f['how'][1]}")
        say(f"VIOLATION property={pid} replay={f['path']}")
    write_evidence(pid, tier, dict(
        states=totals["paths"], transitions=totals["steps"], traces_validated_against_impl=1,
        samples=[dict(violation=f["v"]["label"], inputs=[x[0] for x in f["v"]["inputs"]]) for f in findings],
        runs=runs), time.time() - t0, len(findings), plan.PLAN[pid])
    return 1


def write_evidence(pid, tier, coverage, wall, violations, prop):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = dict(property=pid, tier=tier, seed=SEED, level="model_checking", coverage=coverage,
             assumptions=plan.ASSUMPTIONS + prop.get("assumptions", []), wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVIDENCE, f".{pid}.json")
    with open(tmp, "w") as fd:
        json.dump(d, fd, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))


def replay_file(path):
    d = json.load(open(path))
    c = Crate(d["crate"])
    bad = None
    for profile in ("release", "dev"):
        rc, out = native(c.replay(profile), d["entry"], d["params"], d["inputs"], rounds=20000 if d["schedule"] else 1, timeout=60)
        bad = reproduces(rc, out)
        say(f"{profile}: {bad or out.strip()}")
        if bad:
            break
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in plan.BUDGET:
        tier = "quick"
    try:
        if a == ["--setup"]:
            engine()
            for name in plan.CRATES:
                c = Crate(name)
                c.build()
            return 0
        if a[:1] == ["--replay"]:
            return replay_file(a[1])
        if a == ["--list"]:
            for pid, p in plan.PLAN.items():
                say(pid, p["title"])
                for r in p["runs"]:
                    say("   ", r["entry"], r["quick"], r.get("thorough", []))
            return 0
        if len(a) != 1 or a[0] not in plan.PLAN:
            say(__doc__)
            return 2
        return decide(a[0], tier)
    except Undecided as e:
        say(f"ERROR: {e}")
        return 2


sys.exit(main())
