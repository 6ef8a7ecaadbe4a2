"""C01: a run that reports success has written complete, correct results."""

from sim import base, gen

ID = "C01"
QUICK, THOROUGH = 5000, 120000
RULE = ("one scenario = one workload run twice on identical machines: once "
        "undisturbed, once with 1-3 seeded faults placed on operations (or "
        "lines) the undisturbed run really executes, on top of stale outputs; "
        "non-trivial if at least one fault fired and both runs ended")
MEASURE = ("distinct hashes of (operation/fault/exit sequence of the faulted "
           "run with repetitions collapsed)")
SHRINK = [("faults",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("stale",), {}),
          (("case", "eol"), "\n")]
NUMBERS = [("faults", "*", "partial"), ("faults", "*", "nth")]
ASSUME = ["inputs are valid unless the undisturbed run shows otherwise; the "
          "undisturbed run defines the expected content (C10, C13, C18 tie it "
          "to the reference model)"]


def generate(rng):
    case = gen.gen_case(rng, n=rng.choice([3, 8, 15, 25, 40]), table=.6)
    detailed = rng.random() < .25
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s = rng.random()
        if s < .15:
            faults.append(base.gen_line_fault(rng))
        elif s < .22:
            faults.append(dict(op="*", nth=rng.randrange(1 << 16),
                               kind="STALL", seconds=rng.choice([5., 4e5])))
        else:
            faults.append(base.gen_io_fault(rng, case["config"], detailed))
    return dict(case=case, faults=faults, io=gen.gen_io(rng),
                detailed=detailed, seed=rng.randrange(1 << 30),
                stale={f: [rng.choice(base.STALE), rng.randrange(100)]
                       for f in gen.outputs_of(case["config"])})


def place_stale(w, stale, want):
    for f, (kind, seed) in stale.items():
        data = base.stale_content(kind, want.get(f), seed)
        if data is not None:
            w.put(f, data)


def execute(scn, env):
    cfg = scn["case"]["config"]
    lines = base.has_line(scn["faults"])
    a = env.machine()
    base.prepare(a, scn["case"])
    clean = base.boot(a, scn, trace={} if lines else None)
    want = base.outputs(a, cfg)
    b = env.machine()
    base.prepare(b, scn["case"])
    place_stale(b, scn["stale"], want)
    io, trace = base.split_faults(base.place(scn["faults"], a), clean.lines)
    out = base.boot(b, scn, faults=io, trace=trace)
    got = base.outputs(b, cfg)
    s = base.trace_sig(b)
    if clean.status == "ok" and any(v is None for v in want.values()):
        return base.bad("output-missing", files=[k for k in want
                                                 if want[k] is None])
    if out.status == "ok":
        if clean.status != "ok":
            return base.bad("error-lost", clean=clean.brief(), fired=out.fired)
        wrong = [k for k in want if want[k] != got[k]]
        if wrong:
            return base.bad("wrong-output", files=wrong, fired=out.fired,
                            sizes=[[len(want[k] or b""), len(got[k] or b"")]
                                   for k in wrong])
    elif clean.status == "ok" and not base.hard(out.fired):
        return base.bad("failed-without-fault", out=out.brief(),
                        stderr=out.stderr[-300:])
    elif out.status == "error" and not out.stderr and out.exc == "SystemExit":
        env.probe("silent-exit")
    if out.status == "ok" and out.fired and base.hard(out.fired):
        env.probe("fault-survived")
    return base.Verdict(nontrivial=bool(out.fired), sig=s)
