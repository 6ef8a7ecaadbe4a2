"""C12: workflows in one process do not influence each other."""

import copy
import sys

from sim import base, gen, models, proc
from sim.sched import Functions, Scheduler, meeting_points, sim_locks
from sim.world import epoch

ID = "C12"
QUICK, THOROUGH = 2400, 80000
RULE = ("one scenario = 2-4 workflows, each first alone in a fresh process "
        "(undisturbed and with its fault), then together in one process: "
        "sequentially (fresh or shared workflow objects, same or other paths, "
        "failing ones in between, restarts on the same context) or in threads "
        "under the seeded scheduler, which decides at every executed line and "
        "I/O operation who continues; non-trivial if at least two workflows "
        "ran together and one of them succeeded")
MEASURE = ("distinct (mode, jobs, outcomes, schedule) tuples; a schedule is "
           "the sequence of (step, thread) switches")
SHRINK = [("flows",), ("policy", "switches"), ("flows", "*", "case", "rows"),
          ("flows", "*", "case", "zones"),
          ("flows", "*", "case", "config", "preprocessing_jobs"),
          ("flows", "*", "case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("flows", "*", "fault"), None),
          (("flows", "*", "again"), 0), (("share",), False)]
NUMBERS = []
ASSUME = ["no magnitude uncertainties, so that no result is random by design",
          "threads are switched at line boundaries of the tool's own code and "
          "at I/O operations, not inside calls into C libraries"]
FILES = ("eq_catalog_file", "source_model_file", "pprocessing_result_file",
         "completeness_table_file", "result_file")


def gen_flow(rng, k, mode):
    case = gen.gen_case(rng, n=rng.choice([2, 5, 10, 20]),
                        nz=rng.choice([1, 1, 2, 3]), sigma=0,
                        **({"model": False} if rng.random() < .15 else {}))
    s = rng.random()
    fault, broken = None, None
    if s < .12:
        fault = dict(op=rng.choice(["open", "read"]),
                     file=rng.choice(["cat.csv", "src.xml"]), nth=0, kind="EIO")
    elif s < .2:
        fault = dict(op="openw", file=rng.choice(
            ["out/result.xml", "out/pre.csv", "out/table.csv"]), nth=0,
            kind=rng.choice(["ENOSPC", "EACCES"]))
    elif s < .32:
        broken = rng.choice(["job", "row", "missing", "document"])
    if broken == "job":
        case["config"]["processing_jobs"] = \
            (case["config"]["processing_jobs"] or []) + ["Nothing"]
    elif broken == "row" and case["rows"]:
        rng.choice(case["rows"])[4] = "13"
    return dict(case=case, dir="p%d" % (k if mode == "threads" or
                                        rng.random() < .6 else 0),
                fault=fault, broken=broken, again=rng.choice([0, 0, 1, 1, 2]))


def generate(rng):
    mode = rng.choice(["seq", "threads", "threads"])
    n = rng.choice([2, 2, 3]) if mode == "threads" else rng.choice([2, 3, 4])
    flows = [gen_flow(rng, k, mode) for k in range(n)]
    if rng.random() < (.4 if mode == "seq" else .6):
        # the same configuration with other data, or the other way round
        a, b = rng.sample(range(n), 2)
        if rng.random() < (.5 if mode == "seq" else .75):
            keep = flows[b]["case"]["config"]
            flows[b]["case"]["config"] = base.clone(flows[a]["case"]["config"])
            if not keep["source_model_file"]:
                flows[b]["case"]["config"]["source_model_file"] = None
        else:
            for k in ("rows", "zones", "doc", "eol"):
                flows[b]["case"][k] = base.clone(flows[a]["case"][k])
    kind = rng.choice(["random", "random", "pct", "rr", "meet", "meet", "meet"])
    policy = dict(kind=kind, seed=rng.randrange(1 << 30))
    if kind == "random":
        policy["p"] = rng.choice([.001, .01, .05, .3])
    elif kind == "pct":
        policy["depth"] = rng.choice([2, 3, 6])
        policy["length"] = rng.choice([500, 5000, 40000])
    elif kind == "meet":
        policy["burst"] = rng.choice([10, 40, 200])
    else:
        policy["quantum"] = rng.choice([1, 7, 100, 1000])
    return dict(mode=mode, flows=flows, policy=policy, io=gen.gen_io(rng),
                share=rng.random() < .3, detailed=rng.random() < .15,
                order=rng.randrange(1 << 30), seed=rng.randrange(1 << 30))


def files(flow):
    """The input files and the configuration of a flow, in its directory."""
    case, d = flow["case"], flow["dir"]
    cfg = dict(case["config"])
    for k in FILES:
        if cfg[k]:
            cfg[k] = d + "/" + cfg[k]
    out = {d + "/" + k: v for k, v in gen.files_of(case).items()}
    out[d + "/cfg.yml"] = gen.config_bytes(cfg)
    if flow["broken"] == "missing":
        out.pop(d + "/cat.csv")
    elif flow["broken"] == "document" and d + "/src.xml" in out:
        out[d + "/src.xml"] = out[d + "/src.xml"][:-30]
    return cfg, out


def put(w, flow):
    w.delete(flow["dir"] + "/cat.csv")
    for rel, data in files(flow)[1].items():
        w.put(rel, data)


class Flow(object):
    """One workflow, assembled as main.py does it."""

    def __init__(self, d):
        self.d = d
        self.error = None

    def make(self, shared=None):
        from mtoolkit import workflow as W
        from mtoolkit.catalog_filter import (CatalogFilter,
                                             SourceModelCatalogFilter)
        self.ctx = W.Context(self.d + "/cfg.yml")
        self.config = copy.deepcopy(self.ctx.config)
        if shared is not None and hasattr(shared, "flow"):
            self.flow, self.filter = shared.flow, shared.filter
            return
        pre = W.PreprocessingBuilder().build(self.ctx.config)
        process = W.ProcessingBuilder().build(self.ctx.config)
        if self.ctx.config["source_model_file"]:
            self.filter = CatalogFilter(SourceModelCatalogFilter())
        else:
            self.filter = CatalogFilter()
        self.flow = W.Workflow(pre, process)

    def run(self):
        from nrml.writer import AreaSourceWriter
        self.flow.start(self.ctx, self.filter)
        AreaSourceWriter(self.ctx.config["result_file"]).serialize(
            self.ctx.sm_definitions)
        return [models.source_dict(s) for s in self.ctx.sm_definitions]


def attempt(fn):
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["error", type(e).__name__, str(e)[:300]]


def same_jobs(a, b):
    keys = ("preprocessing_jobs", "processing_jobs")
    flags = ("source_model_file", "pprocessing_result_file",
             "completeness_table_file")
    return all(a[k] == b[k] for k in keys) and \
        all(bool(a[k]) == bool(b[k]) for k in flags)


def results(w, cfg):
    return {r: w.get(r) for r in gen.outputs_of(cfg)}


def start_logger(scn):
    import logging
    from mtoolkit.console import build_logger
    build_logger(logging.DEBUG if scn["detailed"] else logging.INFO)


def one(w, flow, shared=None, scn=None):
    """All attempts of a flow: a list of (result, outputs, config kept)."""
    cfg = files(flow)[0]
    f = Flow(flow["dir"])
    out = []
    first = attempt(lambda: f.make(shared))
    if first[0] != "ok":
        return f, [(first, None, True)]
    for _ in range(1 + flow["again"]):
        r = attempt(f.run)
        out.append((r, results(w, cfg), f.ctx.config == f.config))
    return f, out


def alone(env, scn, flow, faults, seen=None):
    w = env.machine()
    for d in ("out", ""):
        w.put("%s/%s/.x" % (flow["dir"], d), b"")
    put(w, flow)
    single = dict(flow, again=0)

    def body():
        start_logger(scn)
        if seen is not None:
            sys.settrace(seen.call)
        try:
            return one(w, single)[1][0]
        finally:
            sys.settrace(None)
    out = proc.run_api(w, body, io=scn["io"], faults=faults, now=epoch(2012),
                       seed=scn["seed"])
    if out.status != "ok":
        raise RuntimeError("alone: %s" % out.brief())
    return out.value


def fault_of(flow):
    f = flow["fault"]
    if not f or f["file"] == "src.xml" and \
            not flow["case"]["config"]["source_model_file"]:
        return []
    return [dict(f, file=flow["dir"] + "/" + f["file"])]


def together(w, scn, holder):
    with sim_locks():
        return run_together(w, scn, holder)


def run_together(w, scn, holder):
    import mtoolkit.workflow, mtoolkit.catalog_filter, nrml.writer  # noqa
    start_logger(scn)
    flows = scn["flows"]
    if scn["mode"] == "seq":
        shared = None
        got = []
        for i, flow in enumerate(flows):
            put(w, flow)
            # a fault belongs to one flow even if flows share their paths
            w.faults = [dict(f, _seen=0, _fired=0) for f in fault_of(flow)]
            use = None
            if scn["share"] and shared is not None and \
                    same_jobs(shared[0], flow["case"]["config"]):
                use = shared[1]
            f, out = one(w, flow, use)
            shared = (flow["case"]["config"], f)
            got.append(out)
        return got

    bodies = [lambda flow=flow: one(w, flow)[1] for flow in flows]
    sched = Scheduler(w, scn["policy"], bodies, holder.get("meet"))
    holder["sched"] = sched
    res, errors = sched.run()
    for e in errors:
        if e is not None:
            raise RuntimeError("thread: %s %s" % e)
    return res


def execute(scn, env):
    flows = scn["flows"]
    if scn["mode"] == "threads" and \
            len(set(f["dir"] for f in flows)) < len(flows):
        return base.Verdict(nontrivial=False)
    clean, faulted, seen = [], [], []
    meet = scn["mode"] == "threads" and scn["policy"]["kind"] == "meet"
    for flow in flows:
        seen.append(Functions() if meet else None)
        clean.append(alone(env, scn, flow, [], seen[-1]))
        fs = fault_of(flow)
        faulted.append(alone(env, scn, flow, fs) if fs else clean[-1])
    w = env.machine()
    for flow in flows:
        for d in ("out", ""):
            w.put("%s/%s/.x" % (flow["dir"], d), b"")
    faults = []
    if scn["mode"] == "threads":
        for flow in flows:
            put(w, flow)
            faults += fault_of(flow)
    holder = {}
    if meet:
        holder["meet"] = meeting_points(seen, scn["policy"]["seed"])
    out = proc.run_api(w, together, w, scn, holder, io=scn["io"], faults=faults,
                       now=epoch(2012), seed=scn["seed"])
    sched = holder.get("sched")
    if sched is not None:
        scn["_switches"] = sched.switches
        w.event("SCHEDULE", len(sched.switches), sched.step,
                base.sig(sched.switches))
        env.probe("switches", len(sched.switches))
        env.probe("schedule-steps", sched.step)
    if out.status != "ok":
        return base.bad("together-crashed", out=out.brief())
    ok = 0
    for i, (flow, got) in enumerate(zip(flows, out.value)):
        for k, (r, files_, kept) in enumerate(got):
            want = faulted[i] if k == 0 else clean[i]
            if k == 0 and faulted[i][0][0] == "ok":
                want = clean[i]
            where = dict(flow=i, attempt=k, mode=scn["mode"],
                         of=len(flows))
            if not kept:
                return base.bad("configuration-altered", **where)
            if r[0] != want[0][0] or (r[0] == "error" and r != want[0]):
                return base.bad("outcome-differs", want=short(want[0]),
                                got=short(r), **where)
            if r[0] != "ok":
                continue
            ok += 1
            if len(r[1]) != len(want[0][1]):
                return base.bad("zone-count", want=len(want[0][1]),
                                got=len(r[1]), **where)
            for a, b in zip(want[0][1], r[1]):
                d = models.diff_source(a, b)
                if d:
                    return base.bad("result-differs", fields=d,
                                    want=[a[q] for q in d],
                                    got=[b[q] for q in d], **where)
            wrong = [f for f in want[1] if want[1][f] != files_[f]]
            if wrong:
                return base.bad("output-differs", files=wrong, **where)
    env.probe("mode:" + scn["mode"])
    return base.Verdict(nontrivial=ok > 0 and len(flows) > 1, sig=base.sig(
        scn["mode"], [[f["case"]["config"]["preprocessing_jobs"],
                       f["case"]["config"]["processing_jobs"]] for f in flows],
        [[a[0][0] for a in got] for got in out.value],
        sched.switches if sched else None))


def short(r):
    return r[:1] if r[0] == "ok" else r


def concrete(scn, env):
    """The scenario with its schedule written out as switches."""
    if scn["mode"] != "threads":
        return scn
    s = base.clone(scn)
    try:
        execute(s, env)
    finally:
        env.finish()
    switches = s.pop("_switches", None)
    if switches is None:
        return scn
    s["policy"] = dict(kind="forced", switches=[list(x) for x in switches])
    return s
