"""C18: a stored completeness table reads back to five decimals."""

import numpy as np

from sim import base, gen, proc
from sim.world import epoch

ID = "C18"
QUICK, THOROUGH = 20000, 500000
RULE = ("one scenario = leftovers at the path, 0-2 stores of other tables that "
        "are killed, torn or fail, one store in a process, and a reading in a "
        "later process; either of an arbitrary table through the jobs, or of "
        "the table of a real run, whose second run must hand exactly this "
        "table to the calculations; non-trivial if a table was stored and "
        "read back")
MEASURE = ("distinct (mode, rows, leftovers, outcomes of earlier stores, "
           "operations) tuples")
SHRINK = [("table",), ("earlier",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs")]
SIMPLE = [(("io",), {}), (("io2",), {}), (("stale",), ["none", 0])]
NUMBERS = []


def value(rng, year):
    if year:
        y = rng.choice([rng.randint(1600, 2012), rng.randint(-10000, 2012),
                        0, -10000, 2012])
        # half a year and the like with a fractional Stepp window
        return float(y) + rng.choice([0, 0, 0, 0, .5, .25, .2, rng.random()])
    return rng.choice([
        round(rng.uniform(2, 9), rng.choice([0, 1, 2, 3, 5])),
        round(rng.uniform(-3, 10), 1), 0.0, -0.5, 10.0,
        3.0 + .1 * rng.randint(0, 60), rng.uniform(0, 10), 1e-6, 4.999995,
        123456.78901])


def gen_table(rng):
    k = rng.choice([1, 1, 1, 2, 3, 8, 40])
    if rng.random() < .04:
        k = rng.choice([51, 64, 65, 100, 129, 300])
    return [[value(rng, True), value(rng, False)] for _ in range(k)]


def nearly(rng, table):
    """A table of the same shape that differs in a few decimals."""
    out = [list(r) for r in table]
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.choice(out)
        r[rng.randrange(2)] += rng.choice([1., -1.]) * rng.choice(
            [1e-5, 3e-5, 1e-4, 1e-3, .01, .1])
    return out


def gen_earlier(rng, near=None):
    f = rng.choice([
        dict(op="*", nth=rng.randrange(1, 12), kind="CRASH"),
        dict(op="write", file="t.csv", nth=rng.choice([0, 0, 1]), kind="CRASH",
             partial=rng.choice([0, 5, 30]), after=rng.random() < .3),
        dict(op="write", file="t.csv", nth=0, kind="ENOSPC",
             partial=rng.choice([0, 7, 40]), sticky=True),
        dict(op="close", file="t.csv", nth=0, kind="EIO"), None])
    if near is not None and rng.random() < .4:
        return dict(table=nearly(rng, near), fault=rng.choice([f, None, None]),
                    damage=None)
    return dict(table=gen_table(rng), fault=f,
                damage=base.gen_damage(rng) if rng.random() < .5 else None)


def generate(rng):
    scn = dict(io=gen.gen_io(rng), io2=gen.gen_io(rng),
               stale=[rng.choice(base.STALE), rng.randrange(100)],
               seed=rng.randrange(1 << 30), year=rng.choice([2012, 2035]))
    if rng.random() < .75:
        table = gen_table(rng)
        scn.update(mode="jobs", table=table,
                   earlier=[gen_earlier(rng, table) for _ in
                            range(rng.choice([0, 0, 1, 2]))],
                   hold=rng.random() < .2)
        return scn
    case = gen.gen_case(rng, n=rng.choice([2, 5, 15, 30, 60]), nz=1, apply=True,
                        pre=rng.choice([["GardnerKnopoff"], ["Stepp"],
                                        ["Afteran"], ["Stepp", "Afteran"],
                                        ["GardnerKnopoff", "Stepp"]]),
                        proc=["Recurrence"], algos="MLE")
    cfg = case["config"]
    cfg["pprocessing_result_file"] = "out/pre.csv"
    cfg["completeness_table_file"] = "out/table.csv"
    scn.update(mode="runs", case=case, earlier=[
        dict(fault=base.gen_early_fault(rng, cfg),
             damage=base.gen_damage(rng) if rng.random() < .5 else None)
        for _ in range(rng.choice([0, 0, 1]))])
    return scn


class Ctx(object):
    pass


def store(table):
    from mtoolkit import jobs
    ctx = Ctx()
    ctx.config = {"completeness_table_file": "t.csv"}
    ctx.completeness_table = np.array(table)
    jobs.store_completeness_table(ctx)
    return ctx.completeness_table.tolist()


def retrieve():
    from mtoolkit import jobs
    ctx = Ctx()
    ctx.config = {"completeness_table_file": "t.csv"}
    ctx.completeness_table = np.array([[-1.0, -1.0]])       # the default
    jobs.retrieve_completeness_table(ctx)
    t = ctx.completeness_table
    return [list(np.shape(t)), np.asarray(t, float).tolist()]


def compare(want, shape, got):
    if list(shape) != [len(want), 2]:
        return dict(cls="shape", want=[len(want), 2], got=shape)
    for i, (a, b) in enumerate(zip(want, got)):
        for c in range(2):
            # half a unit of the fifth decimal, and the rounding of doubles
            if not abs(a[c] - b[c]) <= 5.0001e-6 + 4e-16 * abs(a[c]):
                return dict(cls="value", row=i, column=c, want=a[c], got=b[c])
    return None


def execute(scn, env):
    return via_jobs(scn, env) if scn["mode"] == "jobs" else via_runs(scn, env)


def via_jobs(scn, env):
    if not scn["table"]:
        return base.Verdict(nontrivial=False)
    w = env.machine()
    data = base.stale_content(scn["stale"][0],
                              b"1900.00000,   4.00000\n" * 3, scn["stale"][1])
    if data is not None:
        w.put("t.csv", data)
    tags = []
    for e in scn["earlier"]:
        before = w.snapshot()
        out = proc.run_api(w, store, e["table"] or [[1.0, 1.0]], io=scn["io"],
                           faults=[e["fault"]] if e["fault"] else [],
                           now=epoch(2012))
        tags.append(out.status)
        if e["damage"] and out.status == "crash":
            base.damage(w, before, e["damage"], env)
        if scn.get("hold") and out.status == "ok":
            # a reading of the earlier table must not live on
            proc.run_api(w, retrieve, io=scn["io2"], leave_modules=True)
    keep = bool(scn.get("hold") and tags and tags[-1] == "ok")
    out = proc.run_api(w, store, scn["table"], io=scn["io"],
                       now=epoch(scn["year"]), keep_modules=keep)
    if out.status != "ok":
        return base.bad("store-fails", out=out.brief())
    if out.value != [[float(x) for x in r] for r in scn["table"]]:
        return base.bad("table-altered", want=scn["table"], got=out.value)
    out = proc.run_api(w, retrieve, io=scn["io2"], now=epoch(scn["year"]))
    if out.status != "ok":
        return base.bad("reading-fails", out=out.brief(),
                        file=repr(w.get("t.csv"))[:300])
    bad = compare(scn["table"], *out.value)
    if bad:
        return base.bad(bad.pop("cls"), **bad)
    env.probe("rows:%d" % len(scn["table"]))
    return base.Verdict(nontrivial=True, sig=base.sig(
        "jobs", len(scn["table"]), scn["stale"], tags, base.trace_sig(w)))


def record(w, cfgfile):
    """The second run, with the calculation replaced by a recorder."""
    from mtoolkit import workflow as W
    from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
    got = []

    def recorder(*args, **kw):
        two = [np.array(a) for a in list(args) + list(kw.values())
               if isinstance(a, np.ndarray) and a.ndim == 2]
        got.append(two[-1] if two else None)
        return 1.0, .1, 2.0, .1
    ctx = W.Context(cfgfile)
    ctx.map_sc["recurrence"] = recorder
    flt = CatalogFilter(SourceModelCatalogFilter()) \
        if ctx.config["source_model_file"] else CatalogFilter()
    W.Workflow(W.PreprocessingBuilder().build(ctx.config),
               W.ProcessingBuilder().build(ctx.config)).start(ctx, flt)
    return [None if g is None else [list(g.shape), g.tolist()] for g in got]


def via_runs(scn, env):
    case = scn["case"]
    cfg = case["config"]
    if not case["rows"] or not case["zones"]:
        return base.Verdict(nontrivial=False)
    w = env.machine()
    base.prepare(w, case)
    base.stale_outputs(w, {f: scn["stale"] for f in gen.outputs_of(cfg)})
    tags = []
    for e in scn["earlier"]:
        before = w.snapshot()
        f = e["fault"]
        tr = dict(at=f["line"], exc=f["kind"]) if f["op"] == "line" else None
        out = base.boot(w, scn, faults=[] if tr else [f], trace=tr,
                        now=epoch(2012))
        tags.append(out.status)
        if out.status == "crash" and e["damage"]:
            base.damage(w, before, e["damage"], env)
    out = base.boot(w, scn, now=epoch(scn["year"]))
    if out.status != "ok":
        return base.Verdict(nontrivial=False)
    p = base.reference(case)
    second = base.clone(case)
    c2 = second["config"]
    c2["preprocessing_jobs"] = None
    c2["apply_processing_jobs"] = True
    c2["processing_jobs"] = ["Recurrence"]
    # also when the catalogue itself would suggest another default
    w.put("cfg.yml", gen.config_bytes(c2, case.get("layout")))
    table = w.get("out/table.csv")
    at = dict(dict(config="cfg.yml", cwd="."), **base.place_of(case))
    out = proc.run_api(w, record, w, at["config"], io=scn["io2"],
                       cwd=at["cwd"], now=epoch(scn["year"]))
    if out.status != "ok":
        return base.bad("second-run-fails", out=out.brief())
    if w.get("out/table.csv") != table:
        return base.bad("table-file-changed")
    for g in out.value:
        if g is None:
            return base.bad("no-table-in-force")
        bad = compare(p["table"].tolist(), *g)
        if bad:
            return base.bad(bad.pop("cls"), **dict(bad, mode="runs"))
    env.probe("runs:rows:%d" % len(p["table"]))
    return base.Verdict(nontrivial=bool(out.value), sig=base.sig(
        "runs", len(p["table"]), tags, scn["stale"], len(out.value),
        cfg["preprocessing_jobs"]))
