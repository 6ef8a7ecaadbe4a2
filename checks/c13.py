"""C13: the preprocessed catalogue accounts for every event."""

import numpy as np

from sim import base, gen, models, proc
from sim.world import epoch

ID = "C13"
QUICK, THOROUGH = 8500, 350000
RULE = ("one scenario = a history of boots on one machine (other inputs at the "
        "same paths, faults, crashes, power loss, runs in the same process) "
        "and a final run with preprocessing whose stored catalogue and table "
        "are compared entry by entry with an independent selection; one in "
        "twelve calls the selecting and storing jobs with a table and flags "
        "no Stepp analysis would give; "
        "non-trivial if the final run succeeded and removed or kept an event")
MEASURE = ("distinct (preprocessing jobs and parameters, events, events kept, "
           "table rows, history outcomes) tuples")
SHRINK = [("table",), ("history",), ("history", "*", "faults"), ("case", "rows"),
          ("case", "zones"), ("case", "config", "preprocessing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("stale",), {}),
          (("case", "eol"), "\n"), (("same_process",), False)]
NUMBERS = []
JOBS = [["GardnerKnopoff"], ["Afteran"], ["Stepp"], ["GardnerKnopoff", "Stepp"],
        ["Afteran", "Stepp"], ["Stepp", "GardnerKnopoff"], ["Stepp", "Afteran"],
        ["Afteran", "Afteran"], ["GardnerKnopoff", "Afteran", "Stepp"],
        ["GardnerKnopoff", "Afteran"], ["Stepp", "Stepp"],
        ["Stepp", "GardnerKnopoff", "Stepp"]]


def generate(rng):
    case = gen.gen_case(rng, n=rng.choice([1, 2, 3, 8, 15, 25, 40, 60, 90]),
                        nz=1, pre=rng.choice(JOBS), apply=rng.random() < .3,
                        algos="MLE", mmax="Cumulative_Moment",
                        **({"model": False} if rng.random() < .1 else {}))
    cfg = case["config"]
    cfg["pprocessing_result_file"] = "out/pre.csv"
    cfg["completeness_table_file"] = "out/table.csv"
    if case["rows"] and rng.random() < .15:
        # magnitudes on the bin edges of the table
        for r in rng.sample(case["rows"], min(9, len(case["rows"]))):
            r[17] = rng.choice(["4.0", "4.5", "5.0", "4.2", "3.5", "3.50001"])
    table = None
    if rng.random() < .08:
        table = [[rng.choice([1900, 1950, 1980, 1990, 2000, 2013]),
                  rng.choice([0, 3.5, 4.0, 4.5, 4.55, 5.0, 6.0, 9.0])]
                 for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    return dict(table=table, case=case, history=base.gen_history(rng, case),
                io=gen.gen_io(rng), detailed=rng.random() < .2,
                same_process=rng.random() < .3, seed=rng.randrange(1 << 30),
                year=rng.choice([2012, 2012, 2030]),
                stale={f: [rng.choice(base.STALE), rng.randrange(100)]
                       for f in gen.outputs_of(cfg)})


def check_stored(p, pre, table):
    """None or a violation dict: stored catalogue and table against p."""
    if pre is None or table is None:
        return dict(cls="not-stored")
    kind, got, bad, _ = models.read_catalogue(pre, (2012, 2012))
    want = [e for e, k in zip(p["entries"], p["keep"]) if k]
    if kind != "ok":
        return dict(cls="stored-catalogue-unreadable", detail=kind)
    if len(got) != len(want):
        return dict(cls="stored-count", detail=[len(want), len(got)])
    for i, (a, b) in enumerate(zip(want, got)):
        d = models.diff_entry(b, a)
        if d:
            return dict(cls="stored-event", detail=dict(
                row=i, fields=d, want=[a.get(k) for k in d],
                got=[b.get(k) for k in d]))
    try:
        rows = [[float(x) for x in line.split(b",")]
                for line in table.splitlines() if line.strip()]
    except ValueError:
        return dict(cls="stored-table-unreadable")
    if len(rows) != len(p["table"]) or any(
            len(r) != 2 or abs(r[0] - c[0]) > 5.1e-6 or abs(r[1] - c[1]) > 5.1e-6
            for r, c in zip(rows, p["table"])):
        return dict(cls="stored-table", detail=dict(
            want=p["table"].tolist(), got=rows))
    return None


def select_and_store(table, flags):
    """The selecting and storing jobs on a context made by hand."""
    from mtoolkit import jobs
    from mtoolkit.workflow import Context

    class Ctx(object):
        config = dict(eq_catalog_file="cat.csv",
                      pprocessing_result_file="out/pre.csv",
                      completeness_table_file="out/table.csv")
        map_sc = Context().map_sc
    jobs.read_eq_catalog(Ctx)
    jobs.create_catalog_matrix(Ctx)
    Ctx.completeness_table = np.array(table, dtype=float)
    Ctx.flag_vector = np.array(flags[:len(Ctx.eq_catalog)], dtype=float)
    flags = Ctx.flag_vector.tolist()
    jobs.create_selected_eq_vector(Ctx)
    if scn_order(table):
        jobs.store_completeness_table(Ctx)
        jobs.store_preprocessed_catalog(Ctx)
    else:
        jobs.store_preprocessed_catalog(Ctx)
        jobs.store_completeness_table(Ctx)
    return Ctx.completeness_table.tolist(), len(Ctx.eq_catalog)


def scn_order(table):
    return int(table[0][0]) % 20 == 0


def direct(scn, env):
    case, table = scn["case"], scn["table"]
    w = env.machine()
    for rel, data in gen.files_of(case).items():
        w.put(rel, data)
    base.stale_outputs(w, scn["stale"])
    w.put("out/.x", b"")
    kind, entries, _, _ = models.read_catalogue(w.get("cat.csv"),
                                                (scn["year"], scn["year"]))
    if kind != "ok" or not entries:
        return base.Verdict(nontrivial=False)
    flags = [(scn["seed"] >> i % 29) & 1 for i in range(len(entries))]
    if scn["seed"] % 3 == 0:
        flags = [0] * len(flags)
    elif scn["seed"] % 3 == 1:
        flags = [-f if i % 2 else f for i, f in enumerate(flags)]
    out = proc.run_api(w, select_and_store, table, flags,
                       io=scn["io"], now=epoch(scn["year"]))
    if out.status != "ok":
        return base.bad("jobs-fail", out=out.brief())
    keep = [not f and not any(e["year"] < r[0] and e["Mw"] < r[1]
                              for r in table) for e, f in zip(entries, flags)]
    p = dict(entries=entries, keep=keep, table=np.array(table, dtype=float))
    if out.value[0] != p["table"].tolist():
        return base.bad("table-altered", want=table, got=out.value[0])
    bad = check_stored(p, w.get("out/pre.csv"), w.get("out/table.csv"))
    if bad:
        return base.bad(bad["cls"], detail=bad.get("detail"), table=table)
    env.probe("direct")
    return base.Verdict(nontrivial=True, sig=base.sig(
        "direct", table, len(keep), sum(keep)))


def execute(scn, env):
    if scn.get("table"):
        return direct(scn, env)
    case = scn["case"]
    cfg = case["config"]
    w = env.machine()
    alive = base.run_history(w, scn["history"], case, env)
    base.stale_outputs(w, scn["stale"])
    out = base.boot(w, scn, now=epoch(scn["year"]),
                    keep_modules=alive and scn["same_process"])
    try:
        p = base.reference(case)
    except Exception:
        p = None
    if out.status != "ok":
        if p is not None and p["keep"] is not None:
            return base.bad("run-fails", out=out.brief())
        return base.Verdict(nontrivial=False)
    if p is None or p["keep"] is None:
        return base.Verdict(nontrivial=False)
    bad = check_stored(p, w.get("out/pre.csv"), w.get("out/table.csv"))
    if bad:
        return base.bad(bad["cls"], detail=bad.get("detail"))
    env.probe("removed", len(p["keep"]) - int(sum(p["keep"])))
    env.probe("kept", int(sum(p["keep"])))
    return base.Verdict(nontrivial=True, sig=base.sig(
        cfg["preprocessing_jobs"], [cfg[j] for j in cfg["preprocessing_jobs"]],
        len(p["keep"]), int(sum(p["keep"])), len(p["table"]),
        [e for e in w.log if e[0] in ("EXIT", "CRASH")]))
