"""C14: configured jobs run in order, once each, and stop at the first failure."""

import builtins
import logging

import numpy as np

from sim import base, gen, models, proc
from sim.world import epoch

ID = "C14"
QUICK, THOROUGH = 14000, 500000
RULE = ("one scenario = 1-3 workflows built and started one after the other in "
        "one process with recording stand-ins (or recording wrappers of the "
        "real calculations) behind context.map_sc, a calculation, an I/O "
        "operation or a line of a job failing at a seeded point; or a run of "
        "main.py with an unknown job name; non-trivial if a calculation ran "
        "or a name was refused")
MEASURE = ("distinct (job lists, zones with events, apply, store, stand-in or "
           "real, failing point, outcome) tuples")
SHRINK = [("flows",), ("flows", "*", "case", "rows"),
          ("flows", "*", "case", "zones"),
          ("flows", "*", "case", "config", "preprocessing_jobs"),
          ("flows", "*", "case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("flows", "*", "fail"), None),
          (("flows", "*", "real"), False)]
NUMBERS = [("flows", "*", "fail", "at")]
NAMES = {"GardnerKnopoff": "gardner_knopoff", "Afteran": "afteran",
         "Stepp": "stepp", "Recurrence": "recurrence",
         "MaximumMagnitude": "maximum_magnitude"}
UNKNOWN = ["gardnerknopoff", "GardnerKnopof", "Stepp2", "Recurrence_",
           "recurrence", "Maximum", "MaxMagnitude", "read_eq_catalog", "5",
           "Declustering", "Gardner-Knopoff", "None", "afteran"]
ERRORS = ["ValueError", "RuntimeError", "OSError", "MemoryError", "KeyError",
          "KeyboardInterrupt", "StopIteration", "IndexError", "AttributeError",
          "GeneratorExit", "ZeroDivisionError", "FloatingPointError"]
PRE = ["GardnerKnopoff", "Afteran", "Stepp"]
PROC = ["Recurrence", "MaximumMagnitude"]


def gen_flow(rng):
    nz = rng.choice([1, 1, 2, 3, 4])
    real = rng.random() < .3
    zones = gen.gen_zones(rng, nz, True)
    rows = gen.gen_rows(rng, rng.choice([1, 4, 10, 25]), zones, sigma=0,
                        populated=[z for z in zones if rng.random() < .7])
    if real:
        pre = rng.choice([[], ["GardnerKnopoff"], ["Afteran"], ["Stepp"],
                          ["GardnerKnopoff", "Stepp"], ["Stepp", "Afteran"],
                          ["Afteran", "Stepp"]])
    else:
        pre = [rng.choice(PRE) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    process = [rng.choice(PROC) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    cfg = gen.gen_config(rng, pre=pre, proc=process, apply=rng.random() < .8,
                         model=rng.random() < .85)
    if cfg["preprocessing_jobs"]:
        if rng.random() < .5:
            cfg["pprocessing_result_file"] = None
        else:
            cfg["completeness_table_file"] = "out/table.csv"
            cfg["pprocessing_result_file"] = "out/pre.csv"
    else:
        cfg["pprocessing_result_file"] = rng.choice([None, "out/pre.csv"])
        cfg["completeness_table_file"] = rng.choice([None, "out/table.csv"])
    fail = None
    s = rng.random()
    if s < .3:
        fail = dict(kind="call", at=rng.randrange(12), exc=rng.choice(ERRORS))
    elif s < .45:
        fail = dict(kind="line", at=rng.choice([3, 10, 30, 60, 90]) +
                    rng.randrange(30),
                    exc=rng.choice(["MemoryError", "KeyboardInterrupt"]))
    elif s < .6:
        fail = dict(kind="io", fault=rng.choice([
            dict(op="open", file="cat.csv", nth=0, kind="EIO"),
            dict(op="read", file="cat.csv", nth=rng.choice([0, 1]), kind="EIO"),
            dict(op="open", file="src.xml", nth=0, kind="EACCES"),
            dict(op="read", file="src.xml", nth=0, kind="EIO"),
            dict(op="openw", file="out/pre.csv", nth=0, kind="EACCES"),
            dict(op="openw", file="out/table.csv", nth=0, kind="ENOSPC"),
            dict(op="write", file="out/pre.csv", nth=0, kind="ENOSPC",
                 sticky=True),
            dict(op="write", file="out/table.csv", nth=0, kind="ENOSPC",
                 sticky=True)]))
    return dict(case=dict(rows=rows, zones=zones,
                          doc=gen.gen_doc(rng), config=cfg, eol="\n"),
                real=real, fail=fail, seed=rng.randrange(1 << 30))


def generate(rng):
    if rng.random() < .2:
        f = gen_flow(rng)
        cfg = f["case"]["config"]
        key = rng.choice(["preprocessing_jobs", "processing_jobs"])
        jobs = list(cfg[key] or [])
        jobs.insert(rng.randint(0, len(jobs)), rng.choice(UNKNOWN))
        cfg[key] = jobs
        f["fail"] = None
        return dict(mode="unknown", flows=[f], io=gen.gen_io(rng),
                    detailed=rng.random() < .3, seed=1,
                    stale={p: [rng.choice(base.STALE), rng.randrange(100)]
                           for p in gen.outputs_of(cfg) +
                           ["out/pre.csv", "out/table.csv"]})
    return dict(mode="flows", flows=[gen_flow(rng) for _ in
                                     range(rng.choice([1, 1, 2, 3]))],
                io=gen.gen_io(rng), detailed=rng.random() < .3,
                seed=rng.randrange(1 << 30))


# ---------------------------------------------------------------- the recorder

class Stop(Exception):
    pass


class Recorder(logging.Handler):

    def __init__(self, w, flow):
        logging.Handler.__init__(self, logging.WARNING)
        self.w, self.flow = w, flow
        self.seq = []           # ["call", name, arrays] | ["warning"]
        self.calls = 0
        self.raised = None
        self.values = []        # what the processing stand-ins returned
        self.working = None     # what the last declustering returned

    def emit(self, record):
        self.seq.append(["warning"])
        self.w.event("WARNING")

    def wrap(self, name, real):
        def fn(*args, **kw):
            return self.call(name, real, args, kw)
        fn.__name__ = name
        return fn

    def call(self, name, real, args, kw):
        k = self.calls
        self.calls += 1
        arrays = [np.array(a) for a in list(args) + list(kw.values())
                  if isinstance(a, np.ndarray)]
        self.seq.append(["call", name, arrays])
        self.w.event("CALL", name)
        fail = self.flow["fail"]
        if fail and fail["kind"] == "call" and fail["at"] == k:
            exc = getattr(builtins, fail["exc"])
            self.raised = exc("planned failure %d" % k)
            raise self.raised
        if self.flow["real"]:
            out = real(*args, **kw)
        else:
            out = self.stand_in(name, k, arrays)
        if name in ("gardner_knopoff", "afteran"):
            self.working = np.array(out[1])
        if name in ("recurrence", "maximum_magnitude"):
            self.values.append([name, [float(x) for x in out]])
        return out

    def stand_in(self, name, k, arrays):
        if name in ("gardner_knopoff", "afteran"):
            cat = arrays[0]
            rng = np.random.RandomState((self.flow["seed"] + k) % (1 << 31))
            keep = rng.uniform(size=len(cat)) < .8
            keep[rng.randint(len(cat))] = True
            return np.zeros(len(cat)), cat[keep], np.where(keep, 0, 1)
        if name == "stepp":
            return np.array([[1900. + k, 3.0 + .1 * k]])
        if name == "select_eq_vector":
            return np.zeros(len(arrays[0]))
        if name == "recurrence":
            return 1. + .01 * k, .1, 2. + .01 * k, .2
        return 6. + .01 * k, .3


def drive(w, scn, recs):
    from mtoolkit import workflow as W
    from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
    from mtoolkit.console import build_logger
    build_logger(logging.DEBUG if scn["detailed"] else logging.INFO)
    out = []
    for i, flow in enumerate(scn["flows"]):
        base.prepare(w, flow["case"], extras(flow))
        fail = flow["fail"]
        w.faults = [dict(fail["fault"], _seen=0, _fired=0)] \
            if fail and fail["kind"] == "io" else []
        rec = recs[i]
        logging.getLogger().addHandler(rec)
        w.event("FLOW", i)
        tracer = None
        try:
            ctx = W.Context("cfg.yml")
            cfg = ctx.config
            pre = W.PreprocessingBuilder().build(cfg)
            process = W.ProcessingBuilder().build(cfg)
            flt = CatalogFilter(SourceModelCatalogFilter()) \
                if cfg["source_model_file"] else CatalogFilter()
            for k, fn in list(ctx.map_sc.items()):
                ctx.map_sc[k] = rec.wrap(k, fn)
            if fail and fail["kind"] == "line":
                import sys
                tracer = proc.Tracer(world=w, at=fail["at"], exc=fail["exc"],
                                     only="mtoolkit/jobs.py")
                sys.settrace(tracer.call)
            try:
                W.Workflow(pre, process).start(ctx, flt)
            finally:
                if tracer is not None:
                    sys.settrace(None)
            out.append(["ok", [models.source_dict(s)
                               for s in ctx.sm_definitions]])
        except (proc.SimCrash, proc.BudgetExceeded, proc.WallTimeout,
                proc.HarnessError):
            raise
        except BaseException as e:
            out.append(["error", type(e).__name__, str(e)[:200],
                        isinstance(e, proc.Injected),
                        e is rec.raised])
            e.__traceback__ = None
        finally:
            logging.getLogger().removeHandler(rec)
        rec.line_fired = bool(tracer and tracer.fired)
        rec.io_fired = any(f["_fired"] for f in w.faults)
        rec.raised = rec.raised is not None
    w.faults = []
    return out


def extras(flow):
    cfg = flow["case"]["config"]
    if not cfg["preprocessing_jobs"] and cfg["completeness_table_file"]:
        return {cfg["completeness_table_file"]: b"1900.0,3.0\n"}
    return {}


# -------------------------------------------------------------------- expected

def expected_calls(flow, rec, entries, sources):
    """The full sequence of an undisturbed workflow."""
    cfg = flow["case"]["config"]
    seq = [["call", NAMES[j], None] for j in cfg["preprocessing_jobs"] or []]
    if seq and cfg["pprocessing_result_file"]:
        seq.append(["call", "select_eq_vector", None])
    if cfg["apply_processing_jobs"]:
        working = rec.working
        if working is None:
            working = models.matrix(entries)
        for i, s in enumerate(sources):
            ev = working if s is None else working[[models.inside(
                r[3], r[4], s["pos"]) for r in working]]
            for j in cfg["processing_jobs"] or []:
                if len(ev):
                    seq.append(["call", NAMES[j], ev, i])
                else:
                    seq.append(["skip", NAMES[j], None, i])
    return seq


def compare(want, got, whole):
    """None or a violation; 'whole' if the sequence must be complete."""
    k = 0
    owed = 0
    for item in got:
        if item[0] == "warning":
            if k < len(want) and want[k][0] == "skip" and not owed:
                k += 1
            continue
        # a call: zones without events before it must have been passed
        if k >= len(want):
            return dict(cls="extra-job", got=item[1])
        if want[k][0] == "skip":
            return dict(cls="job-not-run", missing=want[k][1], zone=want[k][3])
        if want[k][1] != item[1]:
            return dict(cls="wrong-job", want=want[k][1], got=item[1], at=k)
        ev = want[k][2]
        if ev is not None:
            cols = [ev[:, 0], ev[:, 5]]
            if not all(any(a.shape == c.shape and (a == c).all()
                           for a in item[2]) for c in cols):
                return dict(cls="wrong-source", job=item[1], zone=want[k][3],
                            want=[c.tolist() for c in cols],
                            got=[a.tolist() for a in item[2][:2]])
        k += 1
    if whole and k < len(want):
        return dict(cls="job-not-run", missing=want[k][1], at=k)
    return None


def execute(scn, env):
    if any(not f["case"]["zones"] or not f["case"]["rows"]
           for f in scn["flows"]):
        return base.Verdict(nontrivial=False)
    if scn["mode"] == "unknown":
        return unknown(scn, env)
    w = env.machine()
    for d in ("out/.x",):
        w.put(d, b"")
    recs = [Recorder(w, f) for f in scn["flows"]]
    out = proc.run_api(w, drive, w, scn, recs, io=scn["io"], now=epoch(2012),
                       seed=scn["seed"])
    if out.status != "ok":
        return base.bad("workflow-crashed", out=out.brief())
    tags, ran = [], 0
    starts = [i for i, e in enumerate(w.log) if e[0] == "FLOW"] + [len(w.log)]
    for i, (flow, rec, res) in enumerate(zip(scn["flows"], recs, out.value)):
        cfg = flow["case"]["config"]
        data = gen.files_of(flow["case"])
        _, entries, _, _ = models.read_catalogue(data["cat.csv"], (2012, 2012))
        sources = models.read_sources(data["src.xml"]) \
            if cfg["source_model_file"] else [None]
        want = expected_calls(flow, rec, entries, sources)
        where = dict(flow=i, result=res if res[0] != "ok" else "ok",
                     fail=flow["fail"])
        disturbed = rec.raised or rec.line_fired or rec.io_fired
        if disturbed and res[0] == "ok":
            return base.bad("failure-ignored", **where)
        if rec.raised and not res[4]:
            return base.bad("not-its-own-error", **where)
        if res[0] != "ok" and not disturbed and not flow["real"]:
            return base.bad("workflow-fails", **where)
        bad = compare(want, rec.seq, res[0] == "ok")
        if not bad and rec.raised and \
                [s[0] for s in rec.seq].count("call") != flow["fail"]["at"] + 1:
            bad = dict(cls="job-after-failure")
        if not bad:
            bad = order(w.log[starts[i]:starts[i + 1]], cfg, res, flow, rec)
        if bad:
            return base.bad(bad.pop("cls"), **dict(bad, **where))
        if res[0] == "ok" and not flow["real"]:
            bad = values(cfg, want, rec, res[1], sources)
            if bad:
                return base.bad(bad.pop("cls"), **dict(bad, **where))
        ran += rec.calls
        tags.append([cfg["preprocessing_jobs"], cfg["processing_jobs"],
                     [x[0] for x in want], cfg["apply_processing_jobs"],
                     bool(cfg["pprocessing_result_file"]), flow["real"],
                     flow["fail"] and flow["fail"]["kind"],
                     rec.calls if disturbed else None, res[:2]
                     if res[0] != "ok" else "ok"])
        env.probe("outcome:" + res[0])
    return base.Verdict(nontrivial=ran > 0, sig=base.sig(tags))


def order(log, cfg, res, flow, rec):
    """Reading before the first calculation, storing in between, and only
    what is configured."""
    ins = ["cat.csv"] + (["src.xml"] if cfg["source_model_file"] else [])
    stores = []
    if cfg["preprocessing_jobs"] and cfg["pprocessing_result_file"]:
        stores = [cfg["pprocessing_result_file"], cfg["completeness_table_file"]]
    npre = len(cfg["preprocessing_jobs"] or []) + (1 if stores else 0)
    calls = 0
    read, written = set(), set()
    for e in log:
        if e[0] == "CALL":
            calls += 1
            if calls > npre and stores and len(written) < 2:
                return dict(cls="processing-before-storing")
            if not set(ins) <= read:
                return dict(cls="job-before-reading", read=sorted(read))
        elif len(e) == 4 and isinstance(e[0], int) and e[1] != "FAULT":
            if e[1] == "open":
                if e[2] in ins and calls:
                    return dict(cls="reading-after-a-job", file=e[2])
                read.add(e[2])
            elif e[1] == "openw" and e[2] not in ("debug.log",):
                if e[2] not in stores:
                    return dict(cls="stored-though-not-configured", file=e[2])
                if calls < npre:
                    return dict(cls="stored-too-early", file=e[2])
                written.add(e[2])
    if res[0] == "ok" and len(written) < len(stores):
        return dict(cls="not-stored")
    return None


def values(cfg, want, rec, got, sources):
    """Each source carries what its own last calculation returned."""
    calls = [x for x in want if x[0] == "call" and x[2] is not None]
    if len(calls) != len(rec.values):
        return dict(cls="calls-lost")
    final = {}
    for c, v in zip(calls, rec.values):
        final[(c[3], c[1])] = v[1]
    if len(got) != len(sources):
        return dict(cls="source-count", want=len(sources), got=len(got))
    for i, s in enumerate(got):
        r = final.get((i, "recurrence"))
        m = final.get((i, "maximum_magnitude"))
        if r and (s["b"], s["a"]) != (r[0], r[2]):
            return dict(cls="value-of-another-source", zone=i,
                        want=[r[0], r[2]], got=[s["b"], s["a"]])
        if m and s["mmax"] != m[0]:
            return dict(cls="value-of-another-source", zone=i, want=m[0],
                        got=s["mmax"])
        if sources[i] is not None:
            for k, have in (("b", r), ("a", r), ("mmax", m)):
                if not have and repr(s[k]) != repr(sources[i][k]):
                    return dict(cls="value-without-job", zone=i, field=k,
                                want=sources[i][k], got=s[k])
    return None


def unknown(scn, env):
    flow = scn["flows"][0]
    cfg = flow["case"]["config"]
    known = set(NAMES)
    jobs = (cfg["preprocessing_jobs"] or []) + (cfg["processing_jobs"] or [])
    w = env.machine()
    base.prepare(w, flow["case"], extras(flow))
    base.stale_outputs(w, scn["stale"])
    if all(j in known for j in jobs):
        return base.Verdict(nontrivial=False)
    before = w.snapshot()
    out = base.boot(w, scn, now=epoch(2012))
    after = w.snapshot()
    for x in (before, after):
        x.pop("debug.log", None)
    if out.status != "error":
        return base.bad("unknown-job-accepted", jobs=jobs, out=out.brief())
    read = set(out.opened_read) - {"cfg.yml"}
    if read:
        return base.bad("input-opened", files=sorted(read), jobs=jobs)
    wrote = set(out.opened_write) - {"debug.log"}
    if wrote or before != after:
        return base.bad("output-touched", files=sorted(wrote), jobs=jobs)
    env.probe("refused")
    return base.Verdict(nontrivial=True, sig=base.sig("unknown", jobs))
