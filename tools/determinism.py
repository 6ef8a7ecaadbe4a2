#!/opt/venv/bin/python
"""One seed is one execution: the same scenarios in several interpreters.

    tools/determinism.py [N] [CHECK ...]

Runs N scenarios (default 40) of each check in four interpreters, which differ in
PYTHONHASHSEED, in the order in which they go through the scenarios and in the
directory the simulated disks live in, and compares digests (hashes of the
complete event logs) and verdicts. Exit 1 if any differs.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
VARIANTS = [("0", "up"), ("0", "down"), ("7", "odd"), ("12345", "up")]


def order(n, how):
    up = list(range(n))
    if how == "down":
        return up[::-1]
    if how == "odd":
        return up[1::2] + up[::2]
    return up


def child(n, how, checks, where):
    sys.path.insert(0, HERE)
    from sim import base, proc, runner, tree
    tree.build(where + "/tree")
    os.environ["SIM_TREEDIR"] = where + "/tree"
    proc.use_tree(where + "/tree")
    out = {}
    for check in checks:
        mod = runner.load(check)
        os.makedirs(os.path.join(where, check))
        env = base.Env(os.path.join(where, check))
        for i in order(n, how):
            v, stats, secs, digest = runner.one_scenario(mod, 1, i, env)[1]
            out["%s/%d" % (check, i)] = [digest, v["violation"], v["sig"], secs]
    with open(where + "/out.json", "w") as f:
        json.dump(out, f, default=str)
    os._exit(0)     # peers included


def main(argv):
    n = int(argv[0]) if argv and argv[0].isdigit() else 40
    checks = [a.upper() for a in argv if not a.isdigit()] or [
        "C%02d" % i for i in range(1, 19)]
    top = tempfile.mkdtemp(dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        procs = []
        for k, (hashseed, how) in enumerate(VARIANTS):
            where = os.path.join(top, "d" * (k + 1))
            os.makedirs(where)
            env = dict(os.environ, PYTHONHASHSEED=hashseed, TZ="UTC",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
            procs.append((where, subprocess.Popen(
                [PY, "-B", os.path.abspath(__file__), "--child", str(n), how,
                 where] + checks, env=env)))
        got = []
        for where, p in procs:
            p.wait()
            with open(where + "/out.json") as f:
                got.append(json.load(f))
        bad = [key for key in got[0] if any(g[key] != got[0][key] for g in got)]
        for check in checks:
            print("%s: %d scenarios in %d interpreters, %d differ" % (
                check, n, len(VARIANTS),
                sum(k.startswith(check) for k in bad)))
        for key in bad[:20]:
            print(key, [g[key][0][:12] for g in got])
        return 1 if bad else 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    if "--child" in sys.argv:
        a = sys.argv[2:]
        child(int(a[0]), a[1], a[3:], a[2])
    sys.exit(main(sys.argv[1:]))
