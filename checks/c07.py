"""C07: resuming from stored preprocessing results gives the one-pass result."""

import numpy as np

from sim import base, gen, models
from sim.world import epoch

ID = "C07"
QUICK, THOROUGH = 3000, 100000
RULE = ("one scenario = machine A runs everything in one boot; machine B runs "
        "the preprocessing in one or more boots (crashes, power loss, reruns, "
        "different clocks, log levels and transfer sizes), then only the "
        "processing from the stored catalogue and table in one or more boots; "
        "result documents are compared (bytes for declustering only, 1e-6 "
        "with Stepp); non-trivial if both succeeded and a zone had events")
MEASURE = ("distinct (preprocessing, processing, algorithms, zones with "
           "events) and operation/crash sequence hashes")
SHRINK = [("boots1",), ("boots2",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("case", "eol"), "\n"), (("final1",), {}),
          (("final2",), {})]
NUMBERS = []
ASSUME = ["cases in which the reference estimator itself is discontinuous "
          "under rounding the completeness table to five decimals (Stepp) are "
          "skipped"]


def gen_boots(rng, n):
    return [dict(fault=base.gen_crash(rng), io=gen.gen_io(rng),
                 year=rng.choice([2012, 2009, 2031]),
                 detailed=rng.random() < .3,
                 damage=base.gen_damage(rng) if rng.random() < .5 else None)
            for _ in range(n)]


def generate(rng):
    if rng.random() < .7:
        pre = [rng.choice(["GardnerKnopoff", "Afteran"])]
        kw = dict(pre=pre)
    else:
        pre = [rng.choice(["GardnerKnopoff", "Afteran"]), "Stepp"]
        kw = dict(pre=pre, proc=["Recurrence"], algos="MLE")
    case = gen.gen_case(rng, n=rng.choice([8, 15, 25, 40, 60]), apply=True, **kw)
    cfg = case["config"]
    cfg["pprocessing_result_file"] = "out/pre.csv"
    cfg["completeness_table_file"] = "out/table.csv"
    cfg["Stepp"]["increment_lock"] = True
    return dict(case=case, boots1=gen_boots(rng, rng.choice([0, 0, 1, 2])),
                boots2=gen_boots(rng, rng.choice([0, 0, 1, 2])),
                final1=gen_boots(rng, 1)[0], final2=gen_boots(rng, 1)[0],
                io=gen.gen_io(rng), seed=rng.randrange(1 << 30),
                how=rng.choice(["off", "nojobs"]),
                stale=[rng.choice(base.STALE), rng.randrange(100)])


def phase(b, scn, cfg_bytes, boots, final, n_ops, lines):
    """Boots of one phase: killed ones, then one that must succeed."""
    b.put("cfg.yml", cfg_bytes)
    for boot in boots:
        before = b.snapshot()
        f = dict(boot["fault"])
        if f["op"] != "line":
            f["nth"] = f["nth"] % n_ops
        io, tr = base.split_faults([f], lines)
        out = base.boot(b, scn, faults=io, trace=tr, io=boot["io"],
                        detailed=boot["detailed"], now=epoch(boot["year"]))
        if out.status == "crash" and boot["damage"]:
            base.damage(b, before, boot["damage"])
    return base.boot(b, scn, io=final.get("io", {}),
                     detailed=final.get("detailed", False),
                     now=epoch(final.get("year", 2012)))


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    a = env.machine()
    base.prepare(a, case)
    need = any(x["fault"]["op"] == "line" for x in scn["boots1"] + scn["boots2"])
    one = base.boot(a, scn, trace={} if need else None, now=epoch(2012))
    want = a.get("out/result.xml")
    b = env.machine()
    base.prepare(b, case)
    c1 = dict(cfg, result_file="out/phase1.xml")
    if scn["how"] == "off":
        c1["apply_processing_jobs"] = False
    else:
        c1["processing_jobs"] = None
    c2 = dict(cfg, eq_catalog_file="out/pre.csv", preprocessing_jobs=None,
              pprocessing_result_file=None)
    ops = max(1, base.ops(a, "*", "*"))
    o1 = phase(b, scn, gen.config_bytes(c1, case.get("layout")), scn["boots1"], scn["final1"], ops,
               one.lines)
    if one.status != "ok":
        return base.Verdict(nontrivial=False)
    if o1.status != "ok":
        return base.bad("phase-one-fails", out=o1.brief())
    stale = base.stale_content(scn["stale"][0], want, scn["stale"][1])
    if stale is not None:
        b.put("out/result.xml", stale)
    pre, table = b.get("out/pre.csv"), b.get("out/table.csv")
    o2 = phase(b, scn, gen.config_bytes(c2, case.get("layout")), scn["boots2"], scn["final2"], ops,
               one.lines)
    if o2.status != "ok":
        return base.bad("phase-two-fails", out=o2.brief())
    if (pre, table) != (b.get("out/pre.csv"), b.get("out/table.csv")):
        return base.bad("phase-two-changes-its-inputs")
    got = b.get("out/result.xml")
    p = base.reference(case)
    used = sum(any(models.inside(e[3], e[4], s["pos"]) for e in p["working"])
               for s in p["sources"])
    v = base.Verdict(nontrivial=used > 0, sig=base.sig(
        cfg["preprocessing_jobs"], cfg["processing_jobs"], used,
        base.trace_sig(b)))
    if "Stepp" not in cfg["preprocessing_jobs"]:
        if want != got:
            return base.bad("result-differs", diff=first_diff(want, got))
        return v
    x, y = models.read_sources(want), models.read_sources(got)
    if len(x) != len(y):
        return base.bad("zone-count", want=len(x), got=len(y))
    for i, (s, t) in enumerate(zip(x, y)):
        d = [k for k in models.diff_source(s, t)
             if k not in ("a", "b", "mmin") or not models.close(s[k], t[k])]
        if d and stable(p, p["sources"][i], cfg):
            return base.bad("zone-differs", zone=i, fields=d,
                            want=[s[k] for k in d], got=[t[k] for k in d])
        if d:
            env.probe("ill-conditioned")
    return v


def stable(p, src, cfg):
    ev = np.array([e for e in p["working"] if models.inside(e[3], e[4], src["pos"])])
    kept = np.array([e for e, k in zip(p["mat"], p["keep"])
                     if k and models.inside(e[3], e[4], src["pos"])])
    rounded = np.array([[float("%10.5f" % v) for v in r] for r in p["table"]])
    e1 = models.estimate(ev, p["table"], cfg, ["Recurrence"])
    e2 = models.estimate(kept, rounded, cfg, ["Recurrence"])
    return set(e1) == set(e2) and all(models.close(e1[k], e2[k], 1e-9)
                                      for k in e1)


def first_diff(x, y):
    x, y = (x or b"").splitlines(), (y or b"").splitlines()
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return [i, p.decode("utf-8", "replace"), q.decode("utf-8", "replace")]
    return [len(x), len(y)]
