"""C15: every run ends within a bounded amount of work."""

import numpy as np

from sim import base, gen, proc
from sim.world import epoch
from checks import c11

ID = "C15"
QUICK, THOROUGH = 3000, 200000
GUARD = 120
RULE = ("one scenario = a history of boots (undisturbed, faulted, killed) and "
        "a final undisturbed run, each under a step budget that is a function "
        "of the numbers of events, zones, bins, jobs and the configured "
        "iteration limits only, and an I/O budget that is a function of the "
        "bytes moved; one in six is a series of calls of the processing jobs' "
        "estimators, each with its own, tighter step budget; degenerate and sparse zones, unreachable tolerances, "
        "byte-wise transfers; non-trivial if the final run was measured")
MEASURE = ("distinct (jobs, algorithms, iteration limits, events per zone, "
           "history outcomes) tuples")
SHRINK = [("calls",), ("calls", "*", "events"), ("history",), ("history", "*", "faults"), ("case", "rows"),
          ("case", "zones"), ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("case", "eol"), "\n"),
          (("same_process",), False)]
NUMBERS = []
ASSUME = ["work is counted in executed lines of the tool and in I/O "
          "operations; work inside C libraries is bounded by the harness' "
          "real-time guard only"]


def gen_call(rng):
    """The events of one zone, a completeness table and an estimator."""
    n = rng.choice([1, 2, 3, 4, 6, 10, 15, 25, 40, 60])
    step = rng.choice([.01, .1, .1, .5])
    top = rng.choice([1, 2, 3, 6, 13, 30])
    events = [[rng.randint(1950, 2000),
               round(4 + step * (rng.randrange(top) if rng.random() < .8
                                 else top), 2)] for _ in range(n)]
    if rng.random() < .2:
        events.append([1975, rng.choice([6.0, 7.5, 9.0])])
    table = sorted([rng.choice([1900, 1949, 1950, 1960, 1975, 1990, 2000, 2001]),
                    rng.choice([3.0, 4.0, 4.0, 4.5, 5.0, 6.0])]
                   for _ in range(rng.choice([1, 1, 2, 3])))
    return dict(kind=rng.choice(["Weichert", "MLE", "Kijko_Npg", "Kijko_Npg",
                                 "Kijko_Npg", "Cumulative_Moment"]),
                events=events, table=[[y, m] for (y, _), (_, m) in zip(
                    table[::-1], sorted(table, key=lambda r: r[1]))],
                window=rng.choice([.1, .1, .2, .5]), ref=rng.choice([4.0, 0.0]),
                time=rng.choice([1.0, .5, 5.0]),
                tol=rng.choice([1e-2, 1e-3, 1e-6, 1e-9, 1e-14, 0.0]),
                maxit=rng.choice([0, 1, 2, 3, 5, 10]),
                neq=rng.choice([1, 2, 5, 20, 100]),
                samples=rng.choice([6, 11, 20]), boots=rng.choice([2, 5, 10]))


def call(c):
    """An estimator as the processing jobs call it."""
    from mtoolkit.workflow import Context
    sc = Context().map_sc
    e = np.array(c["events"], dtype=float)
    with np.errstate(all="ignore"):
        if c["kind"] in ("Weichert", "MLE"):
            r = sc["recurrence"](e[:, 0], e[:, 1], np.array(c["table"], float),
                                 c["window"], c["kind"], c["ref"], c["time"])
        else:
            r = sc["maximum_magnitude"](
                e[:, 0], e[:, 1], np.full(len(e), .1), c["kind"], c["tol"],
                c["maxit"], c["neq"], c["samples"], c["boots"])
    return [float(x) for x in r]


ITMAX = 1000        # of the Weichert iteration: not configurable


def call_budget(c):
    n = len(c["events"])
    y = [e[0] for e in c["events"]]
    m = [e[1] for e in c["events"]]
    span, bins = max(y) - min(y) + 1, (max(m) - min(m)) / c["window"] + 3
    if c["kind"] == "Weichert":
        return int(3000 + 80 * ITMAX + 40 * bins + 60 * len(c["table"]) +
                   60 * n)
    if c["kind"] == "MLE":
        return int(3000 + len(c["table"]) * (200 + 30 * (bins + n)))
    if c["kind"] == "Kijko_Npg":
        return int(2000 + 30 * n + (c["maxit"] + 3) * (
            200 + c["samples"] * (150 + 2 * n)))
    return int(2000 + c["boots"] * (100 + 25 * span + 10 * n))


def estimators(scn, env):
    w = env.machine()
    tags = []
    for i, c in enumerate(scn["calls"]):
        if not c["events"]:
            continue
        limit = call_budget(c)
        out = proc.run_api(w, call, c, trace=dict(budget=limit), seed=3,
                           now=epoch(2012), keep_modules=i > 0,
                           leave_modules=True)
        if out.status == "budget":
            return base.bad("estimator-does-not-end", budget=limit, call=c)
        env.probe("estimator:" + c["kind"])
        tags.append([c["kind"], out.status, out.lines])
    return base.Verdict(nontrivial=bool(tags), sig=base.sig(tags))


def generate(rng):
    if rng.random() < .16:
        return dict(calls=[gen_call(rng) for _ in range(12)])
    nz = rng.choice([1, 2, 3, 4])
    zones = gen.gen_zones(rng, nz, True)
    kind = rng.choice(["few", "few", "bulk", "mixed", "flat", "big"])
    rows = []
    if kind in ("bulk", "mixed", "flat"):
        rows = gen.gen_rows(rng, rng.choice([2, 5, 20, 50]), zones)
    elif kind == "big":
        rows = gen.gen_rows(rng, rng.choice([120, 200]), zones,
                            span=(1990, 2005))
    if kind in ("few", "mixed") or not rows:
        for _ in range(rng.choice([1, 2, 3])):
            rows += c11.few_events(rng, zones, 7000 + len(rows))
    if not rows:
        rows = gen.gen_rows(rng, 2, zones)
    if kind == "flat":
        # one magnitude, one year, one place, one day: everything equal
        col = rng.sample([17, 3, 10, 4], rng.choice([1, 2, 3]))
        for c in col:
            for r in rows:
                r[c] = rows[0][c]
                if c == 10:
                    r[11] = rows[0][11]
                if c == 4:
                    r[5] = rows[0][5]
    if rng.random() < .1:
        rows[0][3] = rng.choice(["-3000", "1", "200"])
    if rng.random() < .1:
        for r in rows:
            r[17] = rng.choice(["8.0", "3.0"])
    cfg = gen.gen_config(rng, apply=rng.random() < .95,
                         model=rng.random() < .9)
    cfg["completeness_table_file"] = cfg["completeness_table_file"] \
        if cfg["preprocessing_jobs"] else None
    mm = cfg["MaximumMagnitude"]
    mm["iteration_tolerance"] = rng.choice([1e-2, 1e-3, 1e-9, 1e-14, 0.0])
    mm["maximum_iterations"] = rng.choice([0, 1, 3, 10, 60])
    mm["number_bootstraps"] = rng.choice([2, 5, 30])
    mm["neq"] = rng.choice([1, 2, 5, 100])
    case = dict(rows=rows, zones=zones, doc=gen.gen_doc(rng), config=cfg,
                eol="\n")
    io = gen.gen_io(rng)
    if rng.random() < .3:
        io["read_max"] = io["write_max"] = 1
        io["bufsize"] = rng.choice([16, 61])
    history = base.gen_history(rng, case, most=2) if rng.random() < .5 else []
    for b in history:
        for f in b["faults"]:
            if f["op"] != "line" and f["kind"] != "CRASH" and rng.random() < .6:
                # an error that lasts, of a kind worth another attempt
                f["sticky"] = True
                if rng.random() < .7:
                    f["kind"] = rng.choice(["EMFILE", "EAGAIN", "ENFILE", "EIO",
                                            "ENOSPC", "ENOMEM", "EACCES",
                                            "ETIMEDOUT"])
    return dict(case=case, history=history, io=io,
                detailed=rng.random() < .2, same_process=rng.random() < .4,
                seed=rng.randrange(1 << 30))


def budget(case):
    """Lines of the tool a run may execute."""
    cfg = case["config"]
    rows = case["rows"]
    n = len(rows)
    z = len(case["zones"])
    years, mags = [], []
    for r in rows:
        try:
            years.append(int(r[3]))
            mags.append(float(r[17]))
        except ValueError:
            pass
    span = max(years) - min(years) + 1 if years else 1
    width = max(mags) - min(mags) if mags else 0
    lines = 3000 + 500 * n + 300 * z
    for j in cfg["preprocessing_jobs"] or []:
        if j == "Stepp":
            c = cfg["Stepp"]
            lines += 500 + 40 * (width / c["magnitude_windows"] + 3) * (
                span / min(c["time_window"], 1.0) + 3)
        else:
            lines += 500 + 100 * n
    for j in cfg["processing_jobs"] or []:
        if j == "Recurrence":
            c = cfg["Recurrence"]
            lines += z * (1000 + 30 * (width / c["magnitude_window"] + 5) * (
                span / c["time_window"] + 5) + 5000 + 20 * n)
        else:
            c = cfg["MaximumMagnitude"]
            if c["maxim_mag_algorithm"] == "Kijko_Npg":
                lines += z * (1000 + (c["maximum_iterations"] + 3) *
                              (100 + 20 * c["number_samples"] +
                               20 * min(n, max(c["neq"], 1))))
            else:
                lines += z * (1000 + c["number_bootstraps"] * (30 + 8 * span))
    return int(8 * lines)


def moved(w):
    return sum(len(d) for k, d in w.snapshot().items())


def execute(scn, env):
    if "calls" in scn:
        return estimators(scn, env)
    case = scn["case"]
    cfg = case["config"]
    if not case["rows"] or not case["zones"]:
        return base.Verdict(nontrivial=False)
    w = env.machine()
    alive = False
    outcomes = []
    for b in scn["history"]:
        c = b["case"] or case
        base.prepare(w, c)
        before = w.snapshot()
        io = [f for f in b["faults"] if f["op"] != "line"]
        tr = [dict(at=f["line"], exc=f["kind"]) for f in b["faults"]
              if f["op"] == "line"]
        tr = dict(tr[0] if tr else {}, budget=budget(c))
        out = base.boot(w, dict(detailed=b["detailed"], io=b["io"],
                                seed=b["seed"]), faults=io, trace=tr,
                        now=epoch(b["year"]), leave_modules=True,
                        keep_modules=alive and b["same_process"])
        outcomes.append(out.status)
        if out.status == "budget":
            return base.bad("does-not-end", during="faulted run",
                            faults=b["faults"], budget=tr["budget"])
        alive = out.status != "crash"
        if out.status == "crash" and b["damage"]:
            base.damage(w, before, b["damage"], env)
    base.prepare(w, case)
    limit = budget(case)
    out = base.boot(w, scn, now=epoch(2012), trace=dict(budget=limit),
                    keep_modules=alive and scn["same_process"])
    if out.status == "budget":
        return base.bad("does-not-end", budget=limit, events=len(case["rows"]),
                        zones=len(case["zones"]))
    size = moved(w)
    ops = 2000 + 12 * size
    if w.op_no > ops:
        return base.bad("too-many-operations", operations=w.op_no, limit=ops)
    try:
        p = base.reference(case)
    except Exception:
        p = None
    if out.status != "ok" and p is not None and p["keep"] is not None:
        return base.bad("next-run-fails", out=out.brief(), history=outcomes)
    env.probe("lines", out.lines)
    share = 100.0 * out.lines / limit
    env.probe("share-of-budget:%s" % (
        "<2%" if share < 2 else "<10%" if share < 10 else "<30%"
        if share < 30 else "<60%" if share < 60 else ">60%"))
    return base.Verdict(nontrivial=True, sig=base.sig(
        cfg["preprocessing_jobs"], cfg["processing_jobs"],
        cfg["Recurrence"]["recurrence_algorithm"], cfg["MaximumMagnitude"],
        len(case["rows"]), out.lines, outcomes))
