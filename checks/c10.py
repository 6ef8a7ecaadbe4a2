"""C10: the result document changes only the computed parameters."""

from sim import base, gen, models
from sim.world import epoch

ID = "C10"
QUICK, THOROUGH = 5500, 200000
RULE = ("one scenario = a history of boots on one machine (other inputs at the "
        "same paths, faults, crashes, power loss, runs in the same process) "
        "and a final run whose result document is compared, source by source "
        "and field by field, with the reference model; non-trivial if the "
        "final run succeeded and at least one parameter was estimated")
MEASURE = ("distinct (preprocessing, processing, algorithms, estimated "
           "parameters per zone, history outcomes) tuples")
SHRINK = [("history",), ("history", "*", "faults"), ("case", "rows"),
          ("case", "zones"), ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("stale",), {}),
          (("case", "eol"), "\n"), (("same_process",), False)]
NUMBERS = []
ASSUME = ["maximum magnitudes bootstrapped with non-zero uncertainties are "
          "random by design: compared only when the uncertainties are tiny",
          "an event on the boundary of a zone is not inside it; events are "
          "either exactly on it or at least 1e-9 degrees away"]


def generate(rng):
    kw = {}
    if rng.random() < .1:
        kw["model"] = False
    case = gen.gen_case(rng, n=rng.choice([3, 8, 15, 25, 40, 60]), **kw)
    cfg = case["config"]
    s = rng.random()
    if s < .25:
        for r in case["rows"]:
            r[18] = rng.choice(["1e-9", "0.000000001", "1E-10"])
    table = None
    if not cfg["preprocessing_jobs"] and rng.random() < .7:
        cfg["completeness_table_file"] = "out/table.csv"
        table = gen_table(rng, case["rows"])
    return dict(case=case, table=table, history=base.gen_history(rng, case),
                io=gen.gen_io(rng), detailed=rng.random() < .2,
                same_process=rng.random() < .3, seed=rng.randrange(1 << 30),
                year=rng.choice([2012, 2012, 2030]),
                stale={f: [rng.choice(base.STALE), rng.randrange(100)]
                       for f in gen.outputs_of(cfg)})


def gen_table(rng, rows):
    ys = sorted(int(r[3]) for r in rows) or [1990]
    ms = sorted(float(r[17]) for r in rows) or [3.0]
    k = rng.choice([1, 1, 2, 3, 5])
    out = []
    y, m = ys[-1] - rng.randint(0, 5), round(ms[0] - .1, 1)
    for _ in range(k):
        out.append([float(y), m])
        y -= rng.randint(0, max(1, (ys[-1] - ys[0]) // k))
        m = round(m + rng.choice([.2, .5, 1.]), 1)
    if rng.random() < .2:
        rng.shuffle(out)
    if rng.random() < .2:
        out.append(list(rng.choice(out)))
    return out


def table_bytes(table):
    return "".join("%10.5f,%10.5f\n" % tuple(r) for r in table).encode()


def extras(scn):
    t = scn.get("table")
    return {"out/table.csv": table_bytes(t)} if t else {}


def expected(scn):
    t = scn.get("table")
    cfg = scn["case"]["config"]
    if not t and not cfg["preprocessing_jobs"] and \
            cfg["completeness_table_file"]:
        return None
    try:
        return base.reference(scn["case"], table_bytes(t) if t else None)
    except Exception:
        return None


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    w = env.machine()
    extra = extras(scn)
    alive = base.run_history(w, scn["history"], case, env, extra)
    base.prepare(w, case, extra)
    base.stale_outputs(w, scn["stale"])
    out = base.boot(w, scn, now=epoch(scn["year"]),
                    keep_modules=alive and scn["same_process"])
    p = expected(scn)
    if out.status != "ok":
        if p is not None and p["keep"] is not None:
            return base.bad("run-fails", out=out.brief())
        return base.Verdict(nontrivial=False)
    if p is None:
        return base.Verdict(nontrivial=False)
    bad = base.check_result(p, cfg, w.get("out/result.xml") or b"")
    if bad:
        return base.bad(bad["cls"], detail=bad["detail"])
    est = [sorted(base.expected_zone(p, s, cfg)[0]) for s in p["sources"]]
    return base.Verdict(nontrivial=any(est), sig=base.sig(
        cfg["preprocessing_jobs"], cfg["processing_jobs"], est,
        cfg["Recurrence"]["recurrence_algorithm"],
        cfg["MaximumMagnitude"]["maxim_mag_algorithm"],
        [e for e in w.log if e[0] in ("EXIT", "CRASH")]))
