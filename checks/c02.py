"""C02: after a crash, rerunning yields the results of an undisturbed run."""

from sim import base, gen
from sim.world import epoch

ID = "C02"
QUICK, THOROUGH = 3200, 90000
RULE = ("one scenario = a history on one machine: leftovers at and beside the "
        "output paths, 1-3 boots killed at a seeded operation or line with "
        "power-loss damage to unsynchronised files, then a final boot without "
        "faults, compared byte for byte with a pristine machine; non-trivial "
        "if at least one boot was really killed or a leftover existed")
MEASURE = "distinct hashes of the (operation/crash/exit) sequence of a history"
SHRINK = [("boots",), ("neighbours",), ("boots", "*", "faults"),
          ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("stale",), {}),
          (("boots", "*", "damage"), None), (("case", "eol"), "\n"),
          (("other",), None)]
NUMBERS = [("boots", "*", "faults", "*", "partial"),
           ("boots", "*", "faults", "*", "nth")]
NAMES = ["out/result.xml.tmp", "out/result.xml~", "out/.result.xml.swp",
         "out/pre.csv.tmp", "out/pre.csv.part", "out/table.csv.tmp",
         "out/result.xml.lock", "result.xml", "debug.log", "out/cache.pkl",
         "out/result.xml.1", ".mtoolkit", "out/pre.csv.bak", "cfg.yml~",
         "cat.csv.cache", "src.xml.tmp", "out/checkpoint", "cat.pkl"]


def generate(rng):
    case = gen.gen_case(rng, n=rng.choice([3, 8, 15, 25, 40]), table=.5)
    outs = gen.outputs_of(case["config"])
    other = None
    if rng.random() < .5:
        # an earlier, complete run on different inputs, same output paths
        other = gen.gen_case(rng, n=rng.choice([5, 15, 30]))
        gen.same_paths(rng, other, case)
    boots = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        fs = [base.gen_crash(rng)]
        if rng.random() < .2:
            fs.append(base.gen_io_fault(rng, case["config"]))
        boots.append(dict(faults=fs, detailed=rng.random() < .15,
                          io=gen.gen_io(rng),
                          year=rng.choice([2012, 2012, 2009, 2040, 1995]),
                          damage=base.gen_damage(rng)
                          if rng.random() < .5 else None))
    return dict(case=case, other=other, boots=boots, io=gen.gen_io(rng),
                detailed=rng.random() < .15, seed=rng.randrange(1 << 30),
                year=rng.choice([2012, 2012, 2011, 2030]),
                stale={f: [rng.choice(base.STALE), rng.randrange(100),
                           rng.choice([-1e8, -1, 0, 1e8])] for f in outs},
                neighbours=[[n, rng.choice(base.STALE[2:]), rng.randrange(100)]
                            for n in rng.sample(NAMES, rng.choice([0, 0, 2, 5]))])


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    t0 = epoch(scn["year"])
    a = env.machine()
    base.prepare(a, case)
    trace = {} if any(base.has_line(b["faults"]) for b in scn["boots"]) else None
    clean = base.boot(a, scn, trace=trace, now=t0)
    want = base.outputs(a, cfg)
    b = env.machine()
    if scn.get("other"):
        base.prepare(b, scn["other"])
        base.boot(b, scn, now=epoch(2012))
    base.prepare(b, case)
    for f, (kind, seed, dt) in scn["stale"].items():
        data = base.stale_content(kind, want.get(f), seed)
        if data is not None:
            b.put(f, data, t0 + dt)
    for f, kind, seed in scn["neighbours"]:
        b.put(f, base.stale_content(kind, want.get("out/result.xml"), seed) or b"")
    killed = 0
    for boot in scn["boots"]:
        before = b.snapshot()
        io, tr = base.split_faults(base.place(boot["faults"], a), clean.lines)
        out = base.boot(b, scn, faults=io, trace=tr, io=boot["io"],
                        detailed=boot["detailed"], now=epoch(boot["year"]))
        if out.status == "crash":
            killed += 1
            env.probe("killed")
            if boot.get("damage"):
                base.damage(b, before, boot["damage"], env)
    out = base.boot(b, scn, now=t0)
    got = base.outputs(b, cfg)
    nontrivial = killed > 0 or scn.get("other") or \
        any(v[0] != "none" for v in scn["stale"].values())
    if clean.status != "ok":
        env.probe("clean-run-fails")
        if out.status == "ok":
            return base.bad("success-from-leftovers", clean=clean.brief())
        return base.Verdict(nontrivial=False)
    if out.status != "ok":
        return base.bad("rerun-fails", out=out.brief(), killed=killed)
    wrong = [k for k in want if want[k] != got[k]]
    if wrong:
        return base.bad("rerun-differs", files=wrong, killed=killed,
                        sizes=[[len(want[k] or b""), len(got[k] or b"")]
                               for k in wrong])
    return base.Verdict(nontrivial=bool(nontrivial), sig=base.trace_sig(b))
