"""C17: logging never changes a run's outcome."""

from sim import base, gen, models
from sim.world import epoch

ID = "C17"
QUICK, THOROUGH = 6500, 250000
RULE = ("one scenario = one workload (possibly in error, possibly with an I/O "
        "error on a file that is not a log) run on a quiet machine without -d, "
        "then with and without -d while console and debug.log fail: single or "
        "lasting write errors, a disk that is full under the log only, torn "
        "and short log writes, failing closes, clock jumps; same outcome, "
        "same error, same output files; non-trivial if a log operation failed "
        "or the detail levels differed")
MEASURE = ("distinct (jobs, outcome, detail levels, log faults fired) tuples")
SHRINK = [("runs",), ("runs", "*", "faults"), ("case", "rows"),
          ("case", "zones"), ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("case", "eol"), "\n"), (("fault",), None),
          (("runs", "*", "stale"), "none")]
NUMBERS = [("runs", "*", "faults", "*", "nth")]
ASSUME = ["opening debug.log succeeds: a log file that cannot be created is "
          "reported as an error before any work"]
LOGS = ["debug.log", "<stderr>", "<stdout>"]


def log_fault(rng):
    s = rng.random()
    nth = rng.choice([0, 0, 1, 2, 3, 7, 20, 40])
    kind = rng.choice(["EIO", "ENOSPC", "EPIPE", "EDQUOT", "ESTALE", "EAGAIN"])
    if s < .4:
        return dict(op="cwrite", file="<stderr>" if s < .34 else "<stdout>",
                    nth=nth if s < .34 else nth % 2, kind=kind,
                    sticky=rng.random() < .6)
    if s < .8:
        return dict(op="write", file="debug.log", nth=nth, kind=kind,
                    sticky=rng.random() < .6,
                    partial=rng.choice([0, 0, 1, 10]))
    if s < .84:
        # nothing but writes today; whatever a change may add
        return dict(op=rng.choice(["fsync", "truncate", "rename", "replace",
                                   "*"]), file="debug.log",
                    nth=1 + nth, kind=kind, sticky=rng.random() < .6)
    if s < .9:
        return dict(op="close", file="debug.log", nth=0, kind=kind)
    return dict(op="write", file="debug.log", nth=nth, kind="STALL",
                seconds=rng.choice([1., 3600., 4e7]))


def generate(rng):
    case = gen.gen_case(rng, n=rng.choice([1, 2, 3, 8, 15, 25]), sigma=0, table=.5,
                        nz=rng.choice([1, 2, 3]),
                        **({"model": False} if rng.random() < .1 else {}))
    case["layout"] = gen.gen_layout(rng, home=True)
    cfg = case["config"]
    s = rng.random()
    broken, fault = None, None
    if s < .15:
        broken = rng.choice(["row", "job", "document", "value", "missing"])
        if broken == "row":
            rng.choice(case["rows"])[4] = rng.choice(["0", "x", ""])
        elif broken == "job":
            cfg["processing_jobs"] = (cfg["processing_jobs"] or []) + ["Nope"]
        elif broken == "value":
            cfg[rng.choice(["Recurrence", "MaximumMagnitude", "Stepp"])] = {}
        elif broken == "missing":
            cfg["eq_catalog_file"] = "none.csv"
    elif s < .3:
        fault = base.gen_io_fault(rng, cfg)
        fault["nth"] = rng.choice([0, 0, 1])
        fault["partial"] = 0
    runs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        d = rng.random() < .75
        runs.append(dict(
            detailed=d, faults=[log_fault(rng) for _ in
                                range(rng.choice([0, 1, 1, 2, 3]))],
            year=rng.choice([2012, 2012, 2030]),
            console=rng.random() < .9,
            stale=rng.choice(base.STALE) if d else "none"))
    return dict(case=case, broken=broken, fault=fault, runs=runs,
                io={} if fault else gen.gen_io(rng),
                seed=rng.randrange(1 << 30))


def files(scn):
    extra = {}
    if scn["broken"] == "document" and \
            scn["case"]["config"]["source_model_file"]:
        extra["src.xml"] = gen.files_of(scn["case"])["src.xml"][:-20]
    return extra


def run(scn, one, env):
    w = env.machine()
    extra = files(scn)
    base.prepare(w, scn["case"], extra)
    data = base.stale_content(one["stale"], b"* Eq catalog length: 3\n" * 9, 3)
    if data is not None:
        w.put("debug.log", data)
    faults = list(one["faults"]) + ([scn["fault"]] if scn["fault"] else [])
    out = base.boot(w, scn, faults=faults, detailed=one["detailed"],
                    now=epoch(one["year"]), console=one["console"])
    return w, out, base.outputs(w, scn["case"]["config"])


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    if not case["zones"] or not case["rows"]:
        return base.Verdict(nontrivial=False)
    quiet = dict(detailed=False, faults=[], year=2012, stale="none",
                 console=True)
    w, first, want = run(scn, quiet, env)
    tags, hits = [], 0
    for one in scn["runs"]:
        w, out, got = run(scn, one, env)
        fired = [[f["op"], f["kind"]] for f in out.fired
                 if f.get("file") in LOGS]
        if not one["console"]:
            fired.append(["console", "none"])
            env.probe("no-console")
        where = dict(detailed=one["detailed"], fired=fired)
        if out.brief() != first.brief():
            return base.bad("outcome-differs", want=first.brief(),
                            got=out.brief(), **where)
        wrong = [f for f in want if want[f] != got[f]]
        if wrong:
            return base.bad("output-differs", files=wrong, **where)
        if set(out.opened_write) - set(first.opened_write) - {"debug.log"}:
            return base.bad("another-file-written",
                            files=sorted(set(out.opened_write) -
                                         set(first.opened_write)), **where)
        hits += bool(fired) or one["detailed"]
        env.probe("detailed" if one["detailed"] else "plain")
        tags.append([one["detailed"], fired])
    env.probe("outcome:" + first.status)
    return base.Verdict(nontrivial=hits > 0, sig=base.sig(
        cfg["preprocessing_jobs"], cfg["processing_jobs"], first.brief(),
        len(case["rows"]), len(case["zones"]), tags))
