"""C06: a stored catalogue reads back as exactly the same entries."""

from sim import base, gen, models, proc
from sim.world import epoch
from checks import c04

ID = "C06"
QUICK, THOROUGH = 18000, 500000
RULE = ("one scenario = a history on one machine: leftovers at the path, "
        "stores of seeded selections of a valid catalogue that are killed, hit "
        "by I/O errors or torn by a power loss, then a store that succeeds, a "
        "reboot and a reload (repeated for several generations), compared "
        "entry by entry with the reference reader; non-trivial if at least one "
        "entry was stored and reloaded")
MEASURE = ("distinct (generations, entries, field shapes, fault sequence) "
           "tuples plus operation sequence")
SHRINK = [("rows",), ("attempts",), ("pick",)]
SIMPLE = [(("io",), {}), (("stale",), ["none", 0]), (("gens",), 1)]
NUMBERS = []

VALID = {
    "Agency": c04.POOL["Agency"] + ["a\r\nb", '""', ",", ",,", '"', " x ", "#1",
                                    "=1+1", "\\", "\\n", "a\\,b", "\u00e9\u0301",
                                    "𝔸", "' '", "NULL", "1.0", "0", "nan"],
    "eventID": ["1", "999999999999999999999999"], "Identifier": ["1", "+4"],
    "year": ["-10000", "-1", "0", "2012", "1582"],
    "second": c04.POOL["second"] + ["nan", "1e-320", "0.1", "58.99999999999999"],
    "timeError": ["-1", "inf", "nan", "1e308", "0.30000000000000004"],
    "longitude": ["180", "-180", "-0.0", "1e-17", "179.99999999999997",
                  "12.345678901234567", "0.1"],
    "latitude": ["90", "-90", "-0.0", "1e-17", "89.99999999999999"],
    "depth": ["1e-300", "700", "0.1", "1e22", "inf"],
    "Mw": ["0", "-1", "10", "5.15", "4.949999999999999", "nan", "1e16"],
    "sigmaMw": c04.POOL["sigmaMw"] + ["nan", "0.1", "1e-7"],
    "SemiMajor90": ["0", "-1", "5", "1e9", "0.1"],
    "SemiMinor90": ["0", "-1", "5", "0.1"],
    "ErrorStrike": c04.POOL["ErrorStrike"], "depthError": ["0", "-1", "nan"],
    "Ms": ["-1", "1e5", "x"], "sigmaMs": ["-1", "0.1"], "mb": ["-1", "5e-324"],
    "sigmamb": ["-1", "1.7976931348623157e308"], "ML": ["-1", " 3 "],
    "sigmaML": ["-1", "0.1", "-0.0"]}


def generate(rng):
    zones = gen.gen_zones(rng, 1, True)
    n = rng.choice([0, 1, 2, 4, 8, 20])
    if rng.random() < .03:
        n = rng.choice([50, 64, 99, 100, 127, 128, 129, 200, 250, 256, 500,
                        512, 1000, 1024])
    rows = gen.gen_rows(rng, n, zones)
    for _ in range(rng.choice([0, 2, 6, 15])):
        if rows:
            name = rng.choice(sorted(VALID) + ["Agency"] * 4)
            rng.choice(rows)[models.FIELDS.index(name)] = rng.choice(VALID[name])
    attempts = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        s = rng.random()
        if s < .6:
            f = dict(op=rng.choice(["write", "write", "openw", "close"]),
                     file="st.csv", nth=rng.choice([0, 0, 1, 2, 5]), kind="CRASH",
                     after=rng.random() < .3,
                     partial=rng.choice([0, 0, 1, 30, 500]))
        elif s < .8:
            f = dict(op="line", frac=rng.random(), kind=rng.choice(
                ["CRASH", "MemoryError", "KeyboardInterrupt"]))
        else:
            f = dict(op=rng.choice(["write", "close", "openw"]), file="st.csv",
                     nth=rng.choice([0, 0, 1]), kind=rng.choice(
                         ["ENOSPC", "EIO", "EDQUOT"]),
                     partial=rng.choice([0, 1, 50]))
        attempts.append(dict(fault=f, take=rng.choice(["same", "all", "half",
                                                       "none"]),
                             damage=base.gen_damage(rng)
                             if rng.random() < .5 else None))
    n = len(rows)
    pick = list(range(n))
    s = rng.random()
    if s < .25:
        pick = [i for i in pick if rng.random() < .5]
    elif s < .4:
        rng.shuffle(pick)
    elif s < .5 and n:
        pick = [rng.randrange(n) for _ in range(n)]
    io = gen.gen_io(rng)
    return dict(rows=rows, pick=pick, attempts=attempts, io=io,
                gens=rng.choice([1, 1, 2, 3]), eol=rng.choice(["\n", "\r\n"]),
                stale=[rng.choice(base.STALE), rng.randrange(100)])


def store(src, pick, path):
    from mtoolkit.eqcatalog import EqEntryReader, EqEntryWriter
    with open(src) as s:
        entries = EqEntryReader(s).read_eq_catalog()
    chosen = entries if pick is None else [
        entries[i] for i in pick if i < len(entries)]
    EqEntryWriter(path).write_rows(chosen)
    return len(entries)


def load(path):
    from mtoolkit.eqcatalog import EqEntryReader
    with open(path) as s:
        return EqEntryReader(s).read_eq_catalog()


def execute(scn, env):
    w = env.machine()
    data = gen.csv_bytes(scn["rows"], scn["eol"])
    kind, want, _, _ = models.read_catalogue(data, (2012, 2012))
    if kind != "ok":
        return base.Verdict(nontrivial=False)
    w.put("cat.csv", data)
    stale = base.stale_content(scn["stale"][0], data, scn["stale"][1])
    if stale is not None:
        w.put("st.csv", stale)
    n = len(want)
    io, kw = scn["io"], dict(now=epoch(2012))
    lines = 0
    if any(a["fault"]["op"] == "line" for a in scn["attempts"]):
        c = env.machine()
        c.put("cat.csv", data)
        lines = proc.run_api(c, store, "cat.csv", scn["pick"], "st.csv",
                             trace={}, **kw).lines
    for a in scn["attempts"]:
        take = {"same": scn["pick"], "all": None, "half": list(range(n // 2)),
                "none": []}[a["take"]]
        before = w.snapshot()
        fs, tr = base.split_faults([a["fault"]], lines)
        out = proc.run_api(w, store, "cat.csv", take, "st.csv", io=io,
                           faults=fs, trace=tr, **kw)
        if out.status == "crash" and a["damage"]:
            base.damage(w, before, a["damage"], env)
    expect = [want[i] for i in scn["pick"] if i < n]
    src, pick = "cat.csv", scn["pick"]
    for g in range(scn["gens"]):
        dst = "st.csv" if g % 2 == 0 else "st2.csv"
        out = proc.run_api(w, store, src, pick, dst, io=io, **kw)
        if out.status != "ok":
            return base.bad("store-fails", out=out.brief(), generation=g)
        out = proc.run_api(w, load, dst, io=io, **kw)
        if out.status != "ok":
            return base.bad("reload-fails", out=out.brief(), generation=g)
        got = out.value
        if len(got) != len(expect):
            return base.bad("count", want=len(expect), got=len(got))
        for i, (x, y) in enumerate(zip(got, expect)):
            d = models.diff_entry(x, y)
            if d:
                return base.bad("entry", row=i, fields=d, generation=g,
                                want=[y.get(k) for k in d],
                                got=[x.get(k) for k in d])
        src, pick = dst, None
    return base.Verdict(nontrivial=bool(expect), sig=base.sig(
        base.trace_sig(w), len(expect), scn["gens"]))
