"""C05: event years are judged by the clock at reading time; nothing else is."""

import itertools

from sim import base, gen, models, proc
from sim.world import epoch

ID = "C05"
QUICK, THOROUGH = 36000, 800000
RULE = ("one scenario = (a) one process in which modules are loaded, readers "
        "built and rows read while a seeded clock advances, rolls over years, "
        "jumps both ways and runs at a time-zone offset, judged against the "
        "years the clock showed while reading, or (b) two complete runs of "
        "main.py at different times with equal outputs required; non-trivial "
        "if an event lies within a year of the clock or both runs succeeded")
MEASURE = ("distinct (mode, clock years of each read, accepted, refused, "
           "jumps, offset) tuples")
SHRINK = [("steps",), ("years",), ("case", "rows"), ("case", "zones")]
SIMPLE = [(("io",), {}), (("offset",), 0), (("gaps",), [])]
NUMBERS = []
HOUR = 3600.0
JUMPS = [1.0, 60.0, -60.0, HOUR, -HOUR, 86400.0, -86400.0, 3.2e7, -3.2e7,
         6.4e8, -6.4e8, 3.2e8, -1.6e8]


def generate(rng):
    year = rng.choice([1999, 2000, 2012, 2012, 2026, 1970, 1969, 2037, 2038,
                       2100, 1900, 1752])
    where = rng.choice(["mid", "eve", "eve", "eve", "jan"])
    start = {"mid": epoch(year), "jan": epoch(year, 1, 1, 0, 0, 3),
             "eve": epoch(year, 12, 31, 23, 59, rng.choice([0, 30, 58, 59]))
             }[where]
    off = rng.choice([0, 0, 5.5, -8, 13, -11, 1]) * HOUR
    if rng.random() < .15:
        return gen_runs(rng)
    steps = []
    for _ in range(rng.randint(1, 4)):
        steps.append([rng.choice(["read", "read", "read", "list", "job"]),
                      rng.choice(["early", "late"]),
                      rng.choice([0, 0, 0] + JUMPS)])
    years = [year + rng.choice([0, 0, 0, 0, -1, 1, 1, 2, -20, -3000])
             for _ in range(rng.choice([1, 2, 3, 6, 12]))]
    if rng.random() < .1:
        years.append(rng.choice([-10000, -10001, -9999]))
    # what happens to the clock between two rows, in the consumer's time
    gaps = [rng.choice([0, 0, 0, 0, 2., 90.] + JUMPS) for _ in years] \
        if rng.random() < .5 else []
    io = {"seed": rng.randrange(1 << 30), "bufsize": rng.choice([16, 64, 512, 8192]),
          "text_chunk": rng.choice([16, 100, 8192]),
          "latency": rng.choice([0, .001, .5, 5., 60.]),
          "clock_jumps": [[rng.randrange(1, 12), rng.choice(JUMPS)]
                          for _ in range(rng.choice([0, 0, 0, 1, 2]))]}
    if rng.random() < .4:
        io["read_max"] = rng.choice([1, 20, 100])
    return dict(mode="read", start=start, offset=off, steps=steps, years=years,
                gaps=gaps, io=io, seed=rng.randrange(1 << 20))


def gen_runs(rng):
    case = gen.gen_case(rng, n=rng.choice([3, 10, 25]), table=.5)
    runs = []
    top = max([int(r[3]) for r in case["rows"]] or [2000])
    for _ in range(2):
        y = top + rng.choice([0, 0, 1, 3, 30, 400, -1])
        runs.append(dict(
            start=epoch(max(y, 2), rng.randint(1, 12), rng.randint(1, 28),
                        rng.randint(0, 23)),
            offset=rng.choice([0, 5.5, -8, 13]) * HOUR,
            io={"seed": rng.randrange(1 << 30),
                "latency": rng.choice([0, .001, 1., 300.]),
                "clock_jumps": [[rng.randrange(1, 60), rng.choice(JUMPS[:5])]
                                for _ in range(rng.choice([0, 1]))]}))
    return dict(mode="runs", case=case, runs=runs, seed=rng.randrange(1 << 30))


def rows_of(scn):
    out = []
    for i, y in enumerate(scn["years"]):
        r = dict.fromkeys(models.FIELDS, "")
        r.update(eventID=str(i + 1), Agency="AAA", Identifier="7", year=str(y),
                 month="6", day="15", hour="1", minute="2", second="3.0",
                 longitude="10.5", latitude="-3.25", depth="12.0", Mw="4.5")
        out.append([r[k] for k in models.FIELDS])
    return out


def drive(w, scn):
    reads = []
    if any(s[1] == "early" for s in scn["steps"]):
        import mtoolkit.eqcatalog       # noqa: loaded long before it is used
        import mtoolkit.jobs            # noqa
    for kind, when, jump in scn["steps"]:
        rec = dict(kind=kind, got=0, exc=None, years=None, rows=[])
        reads.append(rec)
        if kind == "job":
            from mtoolkit import jobs

            class Ctx(object):
                config = {"eq_catalog_file": "cat.csv"}
                eq_catalog = None
            w.now += jump
            w.mark()
            try:
                jobs.read_eq_catalog(Ctx)
                rec["got"] = len(Ctx.eq_catalog)
            except Exception as e:
                rec["exc"] = [type(e).__name__, str(e.args[0])]
            rec["years"] = w.years()
            continue
        from mtoolkit.eqcatalog import EqEntryReader
        if when == "late":
            w.now += jump
        with open("cat.csv") as s:
            reader = EqEntryReader(s)
            if when == "early":
                w.now += jump
            w.mark()
            try:
                if kind == "list":
                    rec["got"] = len(reader.read_eq_catalog())
                else:
                    rows = reader.read()
                    for gap in itertools.chain(scn["gaps"],
                                               itertools.repeat(0)):
                        w.mark()
                        try:
                            next(rows)
                        except StopIteration:
                            break
                        finally:
                            # the clock while this row was being read
                            rec["rows"].append(w.years())
                        rec["got"] += 1
                        w.now += gap
            except Exception as e:
                rec["exc"] = [type(e).__name__, str(e.args[0])]
            rec["years"] = w.years()
    return reads


def check_rows(years, rec):
    """Every row against the years the clock showed while it was being read."""
    wins, n = rec["rows"], len(years)
    for i, (lo, hi) in enumerate(wins[:n]):
        d = dict(row=i, year=years[i], clock=[lo, hi], read=rec)
        if i < rec["got"]:
            if not -10000 <= years[i] <= hi:
                return base.bad("future-accepted", **d)
        elif rec["exc"] is None:
            return base.bad("entry-missing", **d)
        else:
            if rec["exc"] != ["EqEntryValidationError", "year"]:
                return base.bad("wrong-error", **d)
            if -10000 <= years[i] <= lo:
                return base.bad("valid-refused", **d)
            return None
    if rec["exc"] is not None:
        return base.bad("wrong-error", read=rec)
    if rec["got"] != n:
        return base.bad("entry-missing", read=rec, rows=n)
    return None


def execute(scn, env):
    if scn["mode"] == "runs":
        return execute_runs(scn, env)
    w = env.machine()
    w.put("cat.csv", gen.csv_bytes(rows_of(scn)))
    out = proc.run_api(w, drive, w, scn, io=scn["io"], now=scn["start"],
                       utc_offset=scn["offset"])
    if out.status != "ok":
        return base.bad("reader-crashed", out=out.brief())
    tags = []
    near = False
    for rec in out.value:
        n = len(scn["years"])
        if rec["kind"] == "read":
            bad = check_rows(scn["years"], rec)
            if bad:
                return bad
            wins = rec["rows"]
            near = near or any(abs(y - h[1]) <= 1
                               for y, h in zip(scn["years"], wins))
            tags.append([wins, rec["got"], rec["exc"] is None])
            continue
        lo, hi = rec["years"]
        # rows certainly acceptable / possibly acceptable
        first_no = next((i for i, y in enumerate(scn["years"])
                         if not -10000 <= y <= hi), n)
        first_maybe = next((i for i, y in enumerate(scn["years"])
                            if not -10000 <= y <= lo), n)
        near = near or any(abs(y - hi) <= 1 for y in scn["years"])
        d = dict(read=rec, clock=[lo, hi], rows=scn["years"])
        if rec["exc"] is None:
            if rec["got"] != n:
                return base.bad("entry-missing", **d)
            if first_no < n:
                return base.bad("future-accepted", **d)
        else:
            if rec["exc"] != ["EqEntryValidationError", "year"]:
                return base.bad("wrong-error", **d)
            if first_maybe == n:
                return base.bad("valid-refused", **d)
        tags.append([rec["kind"], lo, hi, rec["got"], rec["exc"] is None])
    return base.Verdict(nontrivial=near, sig=base.sig(
        tags, scn["io"].get("clock_jumps"), scn["offset"]))


def execute_runs(scn, env):
    outs, stats, exp = [], [], []
    cfg = scn["case"]["config"]
    top = max([int(r[3]) for r in scn["case"]["rows"]] or [2000])
    for r in scn["runs"]:
        w = env.machine()
        base.prepare(w, scn["case"])
        out = proc.run_main(w, io=r["io"], now=r["start"],
                            **base.place_of(scn["case"]),
                            utc_offset=r["offset"], seed=scn["seed"])
        outs.append(base.outputs(w, cfg))
        stats.append(out.status)
        # the clock from boot to exit: the year it shows at reading lies in it
        lo, hi = w.years()
        exp.append("ok" if top <= lo else "error" if top > hi else None)
        if exp[-1] == "error" and out.status == "ok":
            return base.bad("future-accepted", clock=[lo, hi], top=top)
    if None in exp or exp[0] != exp[1] or "error" in exp:
        return base.Verdict(nontrivial=False)
    if stats[0] != stats[1]:
        return base.bad("outcome-depends-on-time", stats=stats)
    wrong = [k for k in outs[0] if outs[0][k] != outs[1][k]]
    if wrong:
        return base.bad("output-depends-on-time", files=wrong)
    return base.Verdict(nontrivial=stats[0] == "ok",
                        sig=base.sig("runs", [r["start"] for r in scn["runs"]]))
