"""C11: zones are independent, and a zone without data keeps its values."""

import math

from sim import base, gen, models
from sim.world import epoch
from checks import c10

ID = "C11"
QUICK, THOROUGH = 3600, 180000
RULE = ("one scenario = one machine on which the same catalogue is run with "
        "several zone lists (all zones; permuted; subsets; a zone alone), in "
        "seeded order, in fresh or shared processes, some after a killed "
        "boot; zones range from well populated to empty or degenerate; every "
        "zone must come out the same in all lists; non-trivial if a zone was "
        "compared between lists")
MEASURE = ("distinct (processing, algorithms, events per zone, estimated "
           "parameters per zone, lists) tuples")
SHRINK = [("lists",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("case", "eol"), "\n"),
          (("lists", "*", "kill"), None), (("lists", "*", "same_process"), False)]
NUMBERS = []
ASSUME = ["bootstrapped maximum magnitudes are compared only for catalogues "
          "without magnitude uncertainties"]


def few_events(rng, zones, eid):
    """0-4 events of one zone, of the degenerate kinds."""
    z = rng.choice(zones)
    out = []
    kind = rng.choice(["one", "twins", "same-year", "same-mw", "two", "old"])
    k = {"one": 1, "two": 2, "twins": 2}.get(kind, rng.choice([2, 3, 4]))
    y = rng.choice([1950, 1985, 2001])
    m = gen.magnitude(rng, 4.0)
    x, la = gen.point(rng, [z], z)
    for i in range(k):
        if kind != "twins":
            x, la = gen.point(rng, [z], z)
        ev = (y if kind in ("same-year", "twins") else
              y - (300 if kind == "old" else 0) + rng.randint(0, 9),
              rng.randint(1, 12), rng.randint(1, 28), x, la,
              m if kind in ("same-mw", "twins") else gen.magnitude(rng, 3.5))
        if any(gen._near_edge(x, la, q["poly"]) for q in zones):
            continue
        out.append(gen.row(rng, eid + i, ev, 0, False))
    return out


def generate(rng):
    nz = rng.choice([2, 2, 3, 4, 5])
    zones = gen.gen_zones(rng, nz, rng.random() < .5)
    if rng.random() < .25:
        # zones over one another, so that they share their events
        a, b = rng.sample(range(nz), 2)
        zones[b]["poly"] = gen.shifted(rng, zones[a]["poly"])
    full = [z for z in zones if rng.random() < .5]
    mmax = rng.choice(["Kijko_Npg", "Cumulative_Moment"])
    # without zones to populate, the bulk of the events is far from all
    rows = gen.gen_rows(rng, rng.choice([0, 3, 10, 25, 50]), zones, sigma=0,
                        populated=full) if full or rng.random() < .5 else []
    if rng.random() < .8:
        for _ in range(rng.choice([1, 2, 3])):
            rows += few_events(rng, zones, 5000 + len(rows))
    if not rows:
        rows = few_events(rng, zones, 1)
    if rng.random() < .5:
        rng.shuffle(rows)
    cfg = gen.gen_config(rng, apply=True, mmax=mmax,
                         pre=rng.choice([[], [], ["GardnerKnopoff"], ["Afteran"],
                                         ["GardnerKnopoff", "Stepp"]]),
                         proc=rng.choice([["Recurrence"], ["MaximumMagnitude"],
                                          ["Recurrence", "MaximumMagnitude"],
                                          ["MaximumMagnitude", "Recurrence"]]))
    case = dict(rows=rows, zones=zones, doc=gen.gen_doc(rng), config=cfg,
                eol="\n")
    if not cfg["preprocessing_jobs"] and rng.random() < .4:
        cfg["completeness_table_file"] = "in-table.csv"
        case["table"] = gen.gen_table(rng, rows)
    lists = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        s = rng.random()
        pick = list(range(nz))
        rng.shuffle(pick)
        if s < .4:
            pick = pick[:1]
        elif s < .7:
            pick = pick[:rng.randint(1, nz)]
        lists.append(dict(pick=pick, same_process=rng.random() < .3,
                          year=rng.choice([2012, 2030]),
                          kill=base.gen_early_fault(rng, cfg)
                          if rng.random() < .2 else None))
    return dict(case=case, lists=lists, io=gen.gen_io(rng),
                detailed=rng.random() < .2, seed=rng.randrange(1 << 30))


def run(w, scn, zones, alive, same, year, env, process=True):
    case = base.clone(scn["case"])
    case["zones"] = zones
    if not process:
        case["config"]["apply_processing_jobs"] = False
    base.prepare(w, case)
    return base.boot(w, scn, now=epoch(year), keep_modules=alive and same,
                     leave_modules=True, records=True)


def warned(out):
    # that an estimator reached its iteration limit is another matter
    return sum(1 for lv, text in out.records
               if lv >= 30 and "iteration" not in (text or ""))


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    zones = case["zones"]
    w = env.machine()
    if not zones or not case["rows"]:
        return base.Verdict(nontrivial=False)
    try:
        p = base.reference(case)
    except Exception:
        p = None
    quiet = run(w, scn, zones, False, False, 2012, env, process=False)
    if quiet.status != "ok" or p is None:
        return base.Verdict(nontrivial=False)
    alive = True
    got = {}
    tags = []
    est = [base.expected_zone(p, s, cfg)[0] for s in p["sources"]]
    jobs = cfg["processing_jobs"] or []
    need = [("Recurrence" in jobs and "a" not in e) +
            ("MaximumMagnitude" in jobs and "mmax" not in e) for e in est]
    for i, one in enumerate([dict(pick=list(range(len(zones))), year=2012,
                                  same_process=False, kill=None)] +
                            scn["lists"]):
        pick = [k for k in one["pick"] if k < len(zones)]
        if not pick:
            continue
        if one["kill"]:
            f = one["kill"]
            tr = dict(at=f["line"], exc=f["kind"]) if f["op"] == "line" else None
            base.boot(w, scn, faults=[] if tr else [f], trace=tr,
                      now=epoch(one["year"]))
            alive = False
        out = run(w, scn, [zones[k] for k in pick], alive, one["same_process"],
                  one["year"], env)
        alive = True
        if out.status != "ok":
            return base.bad("run-blocked", zones=pick, out=out.brief(),
                            events=[len(base.expected_zone(p, p["sources"][k],
                                                           cfg)[1])
                                    for k in pick])
        try:
            docs = models.read_sources(w.get(cfg["result_file"]))
        except Exception as e:
            return base.bad("result-unreadable", error=str(e)[:200])
        if len(docs) != len(pick):
            return base.bad("zone-count", want=len(pick), got=len(docs))
        for k, r in zip(pick, docs):
            a = p["sources"][k]
            for q in ("a", "b", "mmin", "mmax"):
                if not math.isfinite(r[q]):
                    return base.bad("not-finite", zone=k, field=q, got=str(r[q]))
            for job, qs in (("Recurrence", ("a", "b", "mmin")),
                            ("MaximumMagnitude", ("mmax",))):
                if job in jobs and qs[0] in est[k]:
                    continue
                if any(repr(float(a[q])) != repr(float(r[q])) for q in qs):
                    return base.bad("value-not-kept", zone=k, job=job,
                                    want=[a[q] for q in qs],
                                    got=[r[q] for q in qs])
            if k in got and models.diff_source(got[k], r):
                d = models.diff_source(got[k], r)
                return base.bad("zone-depends-on-others", zone=k, fields=d,
                                lists=[list(range(len(zones))), pick],
                                want=[got[k][q] for q in d],
                                got=[r[q] for q in d])
            got.setdefault(k, r)
        wanted = sum(1 for k in pick if need[k])
        if warned(out) - warned(quiet) < wanted:
            return base.bad("no-warning", zones=pick, needed=wanted,
                            warnings=warned(out) - warned(quiet))
        env.probe("zones-kept", wanted)
        env.probe("zones-estimated", sum(1 for k in pick if est[k]))
        tags.append(pick)
    return base.Verdict(nontrivial=True, sig=base.sig(
        jobs, cfg["Recurrence"]["recurrence_algorithm"],
        cfg["MaximumMagnitude"]["maxim_mag_algorithm"],
        [len(base.expected_zone(p, s, cfg)[1]) for s in p["sources"]],
        [sorted(e) for e in est], tags))
