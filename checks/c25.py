"""C25: runs that overlap in time do not disturb one another."""

import os

from sim import base, gen
from sim.cluster import Overlap

ID = "C25"
QUICK, THOROUGH = 2400, 80000
RULE = ("one scenario = 2-4 processes of main.py, each first alone on a machine "
        "of its own, then all at once on one machine: in one or several working "
        "directories, sharing inputs and output directories, never an output "
        "file; some hit by I/O errors or killed, some started again; before "
        "every I/O operation a seeded policy decides which process continues; "
        "non-trivial if the processes really alternated and an undisturbed one "
        "was compared with its run alone")
MEASURE = ("distinct hashes of the merged sequence of (process, operation, "
           "file), repetitions collapsed")
SHRINK = [("slots",), ("policy", "switches"), ("slots", "*", "boots"),
          ("slots", "*", "case", "rows"), ("slots", "*", "case", "zones"),
          ("slots", "*", "case", "config", "preprocessing_jobs"),
          ("slots", "*", "case", "config", "processing_jobs")]
SIMPLE = [(("slots", "*", "boots", "*", "io"), {}),
          (("slots", "*", "boots", "*", "faults"), []),
          (("slots", "*", "boots", "*", "detailed"), False),
          (("slots", "*", "case", "argv"), 0)]
NUMBERS = []
ASSUME = ["no two of the runs write the same output file",
          "processes are switched before operations on files, locks and "
          "sleeps, not between other instructions: nothing else is shared",
          "what the log file of runs that share a directory holds is not judged"]
REAL = ["main.py, mtoolkit and nrml, translated from /repo's working tree, in "
        "one forked process per run; CPython, csv, logging, PyYAML, numpy, "
        "scipy, shapely, lxml run for real"]

STYLES = [
    ["out/result%d.xml", "out/pre%d.csv", "out/table%d.csv"],
    ["out%d/result.xml", "out%d/pre.csv", "out%d/table.csv"],
    ["out/run.%d.xml", "out/run.%d.pre.csv", "out/run.%d.table.csv"],
    ["out/%d.xml", "out/%d.csv", "out/%d.tab"],
    ["result%d.xml", "pre%d.csv", "table%d.csv"],
    ["out/run.xml%d", "out/run.csv%d", "out/run.tab%d"],
    ["out/%d/r.xml", "out/%d/r.csv", "out/%d/r.tab"],
]
INPUTS = ("eq_catalog_file", "source_model_file")


def place(case, k, style, own):
    """Gives the k-th run file names of its own, where it has to have them."""
    cfg = case["config"]
    names = [s % k for s in STYLES[style]]
    cfg["result_file"] = names[0]
    if cfg["preprocessing_jobs"]:
        if cfg["pprocessing_result_file"]:
            cfg["pprocessing_result_file"] = names[1]
        if cfg["completeness_table_file"]:
            cfg["completeness_table_file"] = names[2]
    elif cfg["completeness_table_file"]:
        cfg["completeness_table_file"] = "in-table%d.csv" % k
    if own:
        cfg["eq_catalog_file"] = "cat%d.csv" % k
        if cfg["source_model_file"]:
            cfg["source_model_file"] = "src%d.xml" % k


def gen_slot(rng, k, first, style, cwd):
    share = first is not None and rng.random() < .6
    if share:
        case = base.clone(first)
        if rng.random() < .5:
            case["config"] = dict(
                gen.gen_config(rng, model=bool(
                    first["config"]["source_model_file"])),
                **{f: first["config"][f] for f in INPUTS})
            case.pop("table", None)
            if not case["config"]["preprocessing_jobs"]:
                case["config"]["completeness_table_file"] = None
    else:
        case = gen.gen_case(rng, n=rng.choice([2, 5, 10, 20]),
                            nz=rng.choice([1, 1, 2, 3]), sigma=0, table=.3)
    place(case, k, style, not share)
    case["layout"] = cwd and [cwd, rng.choice(["", "", "./", ".."])]
    boots = []
    for i in range(rng.choice([1, 1, 1, 2])):
        io = gen.gen_io(rng)
        if io.get("read_max", 300) < 300 and rng.random() < .8:
            del io["read_max"]
        boots.append(dict(
            faults=[], io=io, detailed=rng.random() < .3,
            seed=rng.randrange(1 << 30)))
    if k and rng.random() < .4:
        # interrupted, and then perhaps started again
        boots[0]["faults"] = [
            base.gen_crash(rng) if rng.random() < .6 else
            base.gen_io_fault(rng, case["config"])]
        if boots[0]["faults"][0]["op"] == "line":
            boots[0]["faults"] = [dict(op="*", nth=rng.randrange(1 << 16),
                                       kind="CRASH")]
    return dict(case=case, config="cfg%d.yml" % k, boots=boots)


def gen_policy(rng, n):
    p = dict(kind=rng.choice(["random", "random", "rr", "pct", "pct", "pause",
                              "pause", "meet", "meet"]),
             seed=rng.randrange(1 << 30))
    if p["kind"] == "random":
        p["p"] = rng.choice([.05, .2, .5, 1.])
    elif p["kind"] == "rr":
        p["quantum"] = rng.choice([1, 1, 2, 5, 13])
    elif p["kind"] == "pct":
        p.update(depth=rng.choice([1, 2, 3, 5]),
                 length=rng.choice([40, 80, 150, 400]))
    elif p["kind"] == "pause":
        p["at"] = [int(10 ** rng.uniform(0, 1.8)) if rng.random() < .6 else -1
                   for _ in range(n)]
    else:
        p.update(park=rng.choice([.3, .6, 1.]), burst=rng.choice([2, 6, 15]))
    return p


def generate(rng):
    n = rng.choice([2, 2, 2, 3, 4])
    style = rng.randrange(len(STYLES))
    where = rng.choice([0, 0, 1, 2])
    slots = []
    for k in range(n):
        cwd = [None, "work", "w%d" % k][where]
        slots.append(gen_slot(rng, k, slots[0]["case"] if slots else None,
                              style, cwd))
    return dict(slots=slots, policy=gen_policy(rng, n))


def inputs_of(slot):
    files = gen.files_of(slot["case"])
    cat, cfg = files.pop("cat.csv"), files.pop("cfg.yml")
    files[slot["case"]["config"]["eq_catalog_file"]] = cat
    files[slot["config"]] = cfg
    return files


def prepare(w, slots):
    for s in slots:
        for rel, data in inputs_of(s).items():
            w.put(rel, data)
        for rel in gen.outputs_of(s["case"]["config"]):
            os.makedirs(os.path.dirname(w.path(rel)), exist_ok=True)


def start(w, slot, boot, faults):
    return base.boot(w, boot, faults=faults, case=slot["case"],
                     config=gen.spell(slot["config"], slot["case"]["layout"]),
                     spelling=slot["case"].get("argv", 0))


def execute(scn, env):
    slots = scn["slots"]
    wants, plans = [], []
    for s in slots:
        m = env.machine()
        prepare(m, slots)
        out = start(m, s, s["boots"][-1], [])
        wants.append((out, base.outputs(m, s["case"]["config"])))
        named = [dict(f, file=["!" + s["config"]]) if f.get("file") ==
                 ["!cfg.yml"] else f for b in s["boots"] for f in b["faults"]]
        for f in named:
            if f.get("file") in ("cfg.yml", "cat.csv"):
                f["file"] = s["config"] if f["file"] == "cfg.yml" else \
                    s["case"]["config"]["eq_catalog_file"]
        plans.append(base.place(named, m))
    root = env.machine()
    prepare(root, slots)
    views = [env.alias(root) for s in slots]

    def body(s, plan):
        def run(w):
            outs = []
            for b in s["boots"]:
                outs.append(start(w, s, b, plan if b["faults"] else []))
            return outs
        return run
    o = Overlap(views, [body(s, p) for s, p in zip(slots, plans)],
                scn["policy"])
    results = o.run()
    scn["_switches"] = o.switches
    if o.stuck:
        return base.bad("does-not-end", steps=o.step,
                        last=[list(t) for t in o.trace[-6:]])
    env.probe("policy:" + scn["policy"]["kind"])
    env.probe("switches", len(o.switches))
    judged = 0
    for k, s in enumerate(slots):
        alone, want = wants[k]
        out = results[k][-1]
        if s["boots"][-1]["faults"]:
            env.probe("disturbed:" + out.status)
            continue
        if (alone.status, alone.exc) != (out.status, out.exc):
            return base.bad("outcome", run=k, alone=alone.brief(),
                            together=out.brief())
        got = base.outputs(root, s["case"]["config"])
        wrong = [f for f in want if want[f] != got[f]]
        if alone.status == "ok" and wrong:
            return base.bad("output", run=k, files=wrong, sizes=[
                [len(want[f] or b""), len(got[f] or b"")] for f in wrong])
        if alone.status == "ok":
            judged += 1
        env.probe("judged:" + alone.status)
    for s in slots:
        for rel, data in inputs_of(s).items():
            if root.get(rel) != data:
                return base.bad("input-changed", file=rel)
    merged = [t for i, t in enumerate(o.trace) if not i or t != o.trace[i - 1]]
    return base.Verdict(nontrivial=judged > 0 and len(o.switches) > len(slots),
                        sig=base.sig(merged))


def concrete(scn, env):
    """The scenario with its schedule written out as switches."""
    s = base.clone(scn)
    try:
        execute(s, env)
    finally:
        env.finish()
    switches = s.pop("_switches", None)
    if switches is None:
        return scn
    s["policy"] = dict(kind="forced", switches=switches)
    return s
