"""Runs a check: seeds -> scenarios -> verdicts, in parallel and replayable.

check.py ID                 quick or thorough run (VERIF_TIER), VERIF_SEED
check.py ID --replay FILE   executes one recorded scenario
"""

import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLOCK = time.perf_counter
GUARD = 60          # real seconds one scenario may take before being examined
FORCED = 4000000    # step budget of that examination


def scenario_rng(seed, check, index):
    return random.Random("%s/%s/%s" % (seed, check, index))


def load(check):
    return importlib.import_module("checks." + check.lower())


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix="mtksim-", dir=d)
    return tempfile.mkdtemp(prefix="mtksim-")


def _alarm(*a):
    from . import proc
    raise proc.WallTimeout()


def execute(mod, scn, env):
    """(verdict dict, stats, sim seconds, digest)"""
    from . import proc
    from .base import Verdict
    signal.signal(signal.SIGALRM, _alarm)
    scn = json.loads(json.dumps(scn))
    try:
        signal.setitimer(signal.ITIMER_REAL, getattr(mod, "GUARD", GUARD))
        try:
            v = mod.execute(scn, env)
        except proc.WallTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            env.finish()
            v = _examine(mod, scn, env)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _unstick()
    stats, secs, digest = env.finish()
    return dict(violation=v.violation, nontrivial=v.nontrivial, sig=v.sig), \
        stats, secs, digest


def _unstick():
    from . import world
    w = world.World.current
    sys.settrace(None)
    if w is not None:
        w.uninstall()


def _examine(mod, scn, env):
    """A scenario exceeded the real-time guard: is it the tool that does not
    end?  Decided by counting its steps, not by time."""
    from . import proc
    from .base import Verdict
    _unstick()
    proc.FORCE_BUDGET = FORCED
    signal.setitimer(signal.ITIMER_REAL, 300)
    try:
        hit = []
        orig = proc.process.run

        def run(self, fn):
            out = orig(self, fn)
            if out.status == "budget":
                hit.append(out.msg)
            return out
        proc.process.run = run
        try:
            v = mod.execute(scn, env)
        finally:
            proc.process.run = orig
        if hit:
            return Verdict(dict(cls="does-not-end", detail=hit[0]))
        return v
    finally:
        proc.FORCE_BUDGET = None


def one_scenario(mod, seed, index, env):
    rng = scenario_rng(seed, mod.ID, index)
    scn = mod.generate(rng)
    return scn, execute(mod, scn, env)


# ------------------------------------------------------------------- workers

def worker(mod, seed, wid, nworkers, count, base, wfd, stop_at, rerun):
    from .base import Env
    out = os.fdopen(wfd, "w")
    root = os.path.join(base, "w%d" % wid)
    os.makedirs(root)
    env = Env(root)
    agg = dict(runs=0, nontrivial=0, stats={}, secs=0.0, sigs={}, samples=[],
               mismatch=0, reruns=0)
    nerr = 0

    def send(kind, obj):
        out.write(json.dumps([kind, obj], default=_plain) + "\n")
        out.flush()
    try:
        for index in range(wid, count, nworkers):
            if CLOCK() > stop_at:
                agg["stopped"] = True
                break
            try:
                scn, (v, stats, secs, digest) = one_scenario(mod, seed, index, env)
                if index < rerun:
                    agg["reruns"] += 1
                    d2 = one_scenario(mod, seed, index, env)[1][3]
                    if d2 != digest:
                        agg["mismatch"] += 1
            except BaseException:
                # an error of the harness, not a verdict; look on: what made
                # it stumble may violate the property visibly elsewhere
                _unstick()
                env.finish()
                send("error", dict(index=index, tb=traceback.format_exc()[-3000:]))
                nerr += 1
                if nerr > 25:
                    break
                continue
            agg["runs"] += 1
            agg["secs"] += secs
            for k, n in stats.items():
                agg["stats"][k] = agg["stats"].get(k, 0) + n
            if v["nontrivial"]:
                agg["nontrivial"] += 1
                if v["sig"]:
                    agg["sigs"][v["sig"]] = agg["sigs"].get(v["sig"], 0) + 1
                if len(agg["samples"]) < 1:
                    agg["samples"].append(dict(index=index, scenario=scn))
            if v["violation"]:
                send("violation", dict(index=index, scn=scn, v=v["violation"]))
                break
        send("done", agg)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    os._exit(0)


def _plain(x):
    try:
        return x.item()         # a numpy number
    except AttributeError:
        return str(x)


def run_batch(mod, seed, count, nworkers, base, wall, rerun=0):
    pipes = {}
    pids = []
    stop_at = CLOCK() + wall
    sys.stdout.flush()
    for wid in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr in pipes:
                os.close(rr)
            try:
                worker(mod, seed, wid, nworkers, count, base, w, stop_at, rerun)
            finally:
                os._exit(3)
        os.close(w)
        pipes[r] = b""
        pids.append(pid)
    results, violations, errors = [], [], []
    deadline = stop_at + 300
    while pipes and CLOCK() < deadline:
        ready, _, _ = select.select(list(pipes), [], [], 5)
        for r in ready:
            data = os.read(r, 1 << 20)
            if not data:
                os.close(r)
                del pipes[r]
                continue
            pipes[r] += data
            while b"\n" in pipes[r]:
                line, pipes[r] = pipes[r].split(b"\n", 1)
                kind, obj = json.loads(line)
                if kind == "done":
                    results.append(obj)
                elif kind == "violation":
                    violations.append(obj)
                else:
                    errors.append(obj)
        if violations and pipes:
            # enough: give the others a moment, then stop them
            deadline = min(deadline, CLOCK() + 5)
    for pid in pids:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    for r in pipes:
        os.close(r)
    if len(results) < nworkers and not violations and not errors:
        errors.append(dict(index=-1, tb="a worker died or ran out of time"))
    return results, violations, errors


# ------------------------------------------------------------------ shrinking

def get_path(o, path):
    for p in path:
        if isinstance(o, dict):
            if p not in o:
                return None
        elif not isinstance(o, list) or not isinstance(p, int) or p >= len(o):
            return None
        o = o[p]
    return o


def set_path(o, path, value):
    o = json.loads(json.dumps(o))
    x = o
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = value
    return o


def expand(scn, pattern):
    """Concrete paths for a pattern in which '*' stands for list indexes."""
    paths = [()]
    for p in pattern:
        nxt = []
        for q in paths:
            x = get_path(scn, q)
            if p == "*":
                if isinstance(x, list):
                    nxt += [q + (i,) for i in range(len(x))]
            elif isinstance(x, dict) and p in x:
                nxt.append(q + (p,))
        paths = nxt
    return paths


def shrink(mod, scn, cls, env, limit):
    stop = CLOCK() + limit
    tries = [0]

    def fails(s):
        if CLOCK() > stop:
            return False
        tries[0] += 1
        try:
            v = execute(mod, s, env)[0]
        except BaseException:
            _unstick()
            env.finish()
            return False
        return bool(v["violation"]) and v["violation"]["cls"] == cls

    changed = True
    while changed and CLOCK() < stop:
        changed = False
        for pattern, value in list(getattr(mod, "SIMPLE", ())) + [
                (("case", "layout"), None), (("case", "argv"), 0)]:
            for path in expand(scn, pattern):
                if get_path(scn, path) not in (value, None):
                    s = set_path(scn, path, value)
                    if fails(s):
                        scn, changed = s, True
        for pattern in getattr(mod, "SHRINK", ()):
            for path in expand(scn, pattern):
                items = get_path(scn, path)
                if not isinstance(items, list) or not items:
                    continue
                n = max(1, len(items) // 2)
                while n >= 1 and CLOCK() < stop:
                    i = 0
                    while i < len(items):
                        s = set_path(scn, path, items[:i] + items[i + n:])
                        if fails(s):
                            scn = s
                            items = get_path(scn, path)
                            changed = True
                        else:
                            i += n
                    n //= 2
        for pattern in getattr(mod, "NUMBERS", ()):
            for path in expand(scn, pattern):
                x = get_path(scn, path)
                while isinstance(x, int) and x > 0 and CLOCK() < stop:
                    for y in (0, x // 2, x - 1):
                        s = set_path(scn, path, y)
                        if y != x and fails(s):
                            scn, x, changed = s, y, True
                            break
                    else:
                        break
    return scn, tries[0]


# ------------------------------------------------------------------- findings

def known_findings():
    """{(property, cls or '*'): text} of 'finding:' lines."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("finding:"):
                    parts = line.split(None, 3)
                    d = dict(p.split("=", 1) for p in parts[1:3])
                    out.append((d["property"], d["key"], parts[3].strip()))
    except OSError:
        pass
    return out


# ------------------------------------------------------------------------ main

def replay_file(mod, path):
    from .base import Env
    with open(path) as f:
        rec = json.load(f)
    base = scratch_base()
    try:
        env = Env(base)
        v, stats, secs, digest = execute(mod, rec["scenario"], env)
        return v, stats, digest
    finally:
        shutil.rmtree(base, ignore_errors=True)


def fresh_replay(check, path):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check,
                        "--replay", path], capture_output=True, text=True,
                       timeout=600)
    return p.returncode, p.stdout, p.stderr


def report(check, mod, seed, tier, found, base):
    """Minimises, stores and re-executes the first reproducible violation."""
    from .base import Env
    found = sorted(found, key=lambda x: x["index"])
    root = os.path.join(base, "shrink")
    os.makedirs(root)
    env = Env(root)
    for first in found[:4]:
        got = report_one(check, mod, seed, tier, first, env)
        if got[0] is not None:
            return got
    return got


def report_one(check, mod, seed, tier, first, env):
    cls = first["v"]["cls"]
    start = first["scn"]
    if hasattr(mod, "concrete"):
        try:
            start = mod.concrete(start, env)
        except BaseException:
            _unstick()
            env.finish()
            start = first["scn"]
    small, tries = shrink(mod, start, cls, env,
                          45 if tier == "quick" else 180)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for scn, note in ((small, "minimised"), (first["scn"], "original")):
        try:
            v, _, _, digest = execute(mod, scn, env)
        except BaseException:
            _unstick()
            env.finish()
            continue
        if not v["violation"]:
            continue
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (
            check, seed, first["index"]))
        with open(path, "w") as f:
            json.dump(dict(property=check, verif_seed=seed, index=first["index"],
                           violation=v["violation"], form=note,
                           shrink_executions=tries, digest=digest,
                           scenario=scn), f, indent=1)
        code, out, err = fresh_replay(check, path)
        if code == 1 and ("digest=%s" % digest) in out:
            return path, v["violation"], note
        if code == 1:
            return path, v["violation"], note + " (event log differs on replay)"
    return None, first["v"], "not reproduced"


def main(argv):
    if argv[0] == "--setup":
        # fills the translation cache (an accelerator only)
        from . import tree
        d = scratch_base()
        try:
            print("tree %s" % tree.build(os.path.join(d, "tree")))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    check = argv[0].upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = CLOCK()
    from . import tree, proc
    base = scratch_base()
    code = 2
    try:
        code = _main(argv, check, seed, tier, t0, tree, proc, base)
    except tree.TreeError as e:
        print("ERROR: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    return code


def _main(argv, check, seed, tier, t0, tree, proc, base):
    mod = load(check)
    if "--serve" in argv:
        from . import peer
        proc.use_tree(os.environ["SIM_TREEDIR"])
        peer.serve(mod, base)
        return 0
    treedir = os.path.join(base, "tree")
    treehash = tree.build(treedir)
    os.environ["SIM_TREEDIR"] = treedir
    proc.use_tree(treedir)
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        v, stats, digest = replay_file(mod, path)
        print("digest=%s" % digest)
        if v["violation"]:
            print("violation: %s" % json.dumps(v["violation"], default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (check, path))
            return 1
        print("property %s held on this scenario" % check)
        return 0
    count = mod.QUICK if tier == "quick" else mod.THOROUGH
    count = int(os.environ.get("SIM_COUNT", count))
    nworkers = int(os.environ.get("SIM_WORKERS", min(8, os.cpu_count() or 1)))
    wall = 420 if tier == "quick" else 6 * 3600
    print("check %s seed=%d tier=%s tree=%s scenarios=%d workers=%d" % (
        check, seed, tier, treehash, count, nworkers))
    sys.stdout.flush()
    results, violations, errors = run_batch(
        mod, seed, count, nworkers, base, wall, rerun=2 * nworkers)
    known = [k for k in known_findings() if k[0] == check]
    listed = [v for v in violations
              if any(k[1] == v["v"].get("key") for k in known)]
    violations = [v for v in violations if v not in listed]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    status = 0
    nviol = 0
    if violations:
        path, v, note = report(check, mod, seed, tier, violations, base)
        if path is None:
            print("ERROR: a violation could not be reproduced: %s" % json.dumps(v))
            status = 2
        else:
            nviol = 1
            print("violation (%s): %s" % (note, json.dumps(v, default=str)[:1500]))
            print("VIOLATION property=%s replay=%s" % (check, path))
            status = 1
    elif errors:
        print("ERROR of the harness at scenario %s:\n%s" % (
            errors[0]["index"], errors[0]["tb"]))
        status = 2
    evidence(check, mod, seed, tier, results, CLOCK() - t0, nviol, treehash,
             nworkers)
    runs = sum(r["runs"] for r in results)
    print("%s: %d scenarios, %d processes simulated, %.1f s, exit %d" % (
        check, runs, sum(r["stats"].get("processes", 0) for r in results),
        CLOCK() - t0, status))
    return status


def evidence(check, mod, seed, tier, results, wall, nviol, treehash, nworkers):
    stats, sigs = {}, {}
    for r in results:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
        for k, n in r["sigs"].items():
            sigs[k] = sigs.get(k, 0) + n
    runs = sum(r["runs"] for r in results)
    secs = sum(r["secs"] for r in results)
    samples = [s for r in results for s in r["samples"]][:2]
    pick = lambda p: {k[len(p):]: v for k, v in sorted(stats.items())
                      if k.startswith(p)}
    ev = dict(
        property=check, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples,
            nontrivial_runs=sum(r["nontrivial"] for r in results),
            processes_simulated=stats.get("processes", 0),
            seeds_per_hour=int(runs / wall * 3600) if wall else 0,
            processes_per_hour=int(stats.get("processes", 0) / wall * 3600)
            if wall else 0,
            simulated_seconds=round(secs, 3),
            faults_fired=pick("fault:"),
            process_outcomes=pick("outcome:"),
            probes=pick("probe:"),
            distinct_measure=mod.MEASURE,
            determinism_reruns=sum(r["reruns"] for r in results),
            determinism_mismatches=sum(r["mismatch"] for r in results),
            workers=nworkers, tree=treehash,
            stopped_early=any(r.get("stopped") for r in results),
            real_components=getattr(mod, "REAL", REAL),
            stub_components=STUB),
        assumptions=ASSUME + list(getattr(mod, "ASSUME", [])),
        wall_s=round(wall, 3), violations=nviol)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (check, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % check))


REAL = ["main.py", "mtoolkit (all modules but fault_calculator)", "nrml",
        "lib2to3-translated from /repo's working tree; CPython, csv, logging, "
        "PyYAML, numpy, scipy, shapely, lxml run for real"]
STUB = ["disk below Python's buffered I/O (SimFileIO on a scratch directory, "
        "patched os.replace/rename/unlink/mkdir/fsync)",
        "console streams", "clock (datetime, date, time)",
        "process boundary (module purge + re-import instead of fork/exec)",
        "ambient random state (re-seeded per process)"]
ASSUME = ["C-level reads of the XML schema files by libxml2 bypass the "
          "simulated disk and never fail",
          "sampling: a clean batch is evidence, not proof"]
