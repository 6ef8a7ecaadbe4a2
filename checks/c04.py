"""C04: catalogue reading delivers exactly the valid rows, up to the first bad."""

from sim import base, gen, models, proc
from sim.world import epoch

ID = "C04"
QUICK, THOROUGH = 90000, 2500000
RULE = ("one scenario = one or two catalogue files with seeded cell, row and "
        "byte mutations, read through the simulated disk with seeded chunk "
        "sizes, short reads and read errors, by one, or two interleaved, "
        "readers, or by the catalogue job; compared entry by entry with the "
        "reference reader; non-trivial if an entry was delivered or a row, "
        "header or read was refused")
MEASURE = ("distinct (mode, outcome kind, offending fields, entries delivered, "
           "mutation kinds, fault position) tuples")
SHRINK = [("files", "*", "rows"), ("faults",), ("files", "*", "bytes")]
SIMPLE = [(("io",), {}), (("files", "*", "eol"), "\n"),
          (("files", "*", "header"), None)]
NUMBERS = [("faults", "*", "nth")]

BLANK = ["", " ", "\t", "   "]
INTS = ["0", "1", "-1", "007", "+3", " 5 ", "1.0", "1e3", "x", "0x1F", "1_0",
        "９", "nan", "--1", "1 2", "999999999999999999999", "5-", "None"]
FLOATS = ["0", "-0.0", "1", "-1", "1e3", "1E-320", "nan", "inf", "-inf", ".5",
          "5.", "1,5", "x", "1_000.5", " 2.5 ", "٣.٥", "1e999", "-1e-9",
          "0.1e", "--", "1d3", "None", "True"]
POOL = {
    "eventID": ["0", "1", "-1", "-0"], "Identifier": ["0", "1", "-3"],
    "year": ["-10000", "-10001", "2012", "2013", "2011", "0", "-1", "20100"],
    "month": ["0", "1", "12", "13", "2", "02", "-2"],
    "day": ["0", "1", "28", "29", "30", "31", "32", "-1"],
    "hour": ["-1", "0", "23", "24"], "minute": ["-1", "0", "59", "60"],
    "second": ["-0.1", "-0.0", "0", "59", "59.0", "59.001", "60", "58.999"],
    "longitude": ["180", "-180", "180.0001", "-180.0001", "0", "-0.0", "360"],
    "latitude": ["90", "-90", "90.0001", "-90.0001", "0", "-0.0", "91"],
    "SemiMajor90": ["0", "-1", "5", "1e9"], "SemiMinor90": ["0", "-1", "5", "1e9"],
    "ErrorStrike": ["0", "360", "360.1", "-0.1", "-0.0", "180"],
    "depth": ["0", "-0.0", "-1", "1e-300", "700", "0.001"],
    "depthError": ["0", "-1", "-0.0", "3"], "Mw": ["0", "-1", "10", "9.99"],
    "sigmaMw": ["0", "-0.1", "-0.0", "0.3", "1e9"],
    "Ms": ["-1", "0"], "sigmaMs": ["-1", "0"], "mb": ["-1", "0"],
    "sigmamb": ["-1", "0"], "ML": ["-1", "0"], "sigmaML": ["-1", "0"],
    "timeError": ["-1", "0"],
    "Agency": ["", "A,B", 'A"B', "x\ny", "Ünï", "'", "a\tb", "\u2028", "\x85",
               "\x1c", "\x00", "\ufeff"]}


def mutate_rows(rng, rows):
    kinds = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        if not rows:
            break
        r = rng.randrange(len(rows))
        s = rng.random()
        if s < .7:
            i = rng.randrange(len(models.FIELDS))
            name = models.FIELDS[i]
            pool = list(POOL[name])
            if name in models.INT_FIELDS:
                pool += rng.sample(INTS, 4) + BLANK[:1]
            elif name != "Agency":
                pool += rng.sample(FLOATS, 5) + BLANK[:2]
            if i < len(rows[r]):
                rows[r][i] = rng.choice(pool)
            if name == "day" and rng.random() < .5 and len(rows[r]) > 4:
                rows[r][4] = rng.choice(["2", "02", "4", "12"])
            kinds.append(name)
        elif s < .78:
            rows[r] = rows[r][:rng.choice([0, 1, 10, 17, 18, 20, 24])]
            kinds.append("short")
        elif s < .784:
            # longer than the csv module accepts by default
            i = rng.choice([1, 1, 1, 8, 24])
            if i < len(rows[r]):
                rows[r][i] = "x" * rng.choice([131071, 131072, 131073, 150000])
            kinds.append("huge")
        elif s < .84:
            rows[r] = rows[r] + [rng.choice(["", "1", "x"])
                                 for _ in range(rng.choice([1, 1, 3]))]
            kinds.append("long")
        elif s < .90:
            rows.insert(r, [rng.choice(["", " ", "#", "eventID"])])
            kinds.append("line")
        elif s < .93:
            rows.insert(r, [])
            kinds.append("empty")
        elif s < .96:
            rows.insert(r, list(models.FIELDS))
            kinds.append("header-again")
        else:
            rows.insert(r, list(rows[r]))
            kinds.append("dup")
    return kinds


def gen_file(rng):
    zones = gen.gen_zones(rng, 1, True)
    rows = gen.gen_rows(rng, rng.choice([0, 1, 2, 3, 5, 9, 20]), zones)
    kinds = mutate_rows(rng, rows)
    f = dict(rows=rows, eol=rng.choice(["\n", "\n", "\r\n", "\r"]),
             final=rng.random() < .85, header=None, bytes=[], kinds=kinds)
    if rng.random() < .08:
        f["header"] = rng.choice([
            " , ".join(models.FIELDS), models.HEADER + ",",
            models.HEADER.lower(), models.HEADER + " ", "\ufeff" + models.HEADER,
            "", models.HEADER.replace(",", ";"), ",".join(models.FIELDS[:-1]),
            models.HEADER.replace("month,day", "day,month"),
            '"eventID"' + models.HEADER[7:], " " + models.HEADER])
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
        f["bytes"].append([rng.choice(["cut", "flip", "del", "ins"]),
                           rng.random(), rng.randrange(256)])
    return f


def data_of(f):
    d = bytearray(gen.csv_bytes(f["rows"], f["eol"], f["final"], f["header"]))
    for what, frac, b in f["bytes"]:
        i = int(frac * len(d))
        if what == "cut":
            del d[i:]
        elif i < len(d):
            if what == "flip":
                d[i] = b
            elif what == "del":
                del d[i]
            else:
                d.insert(i, b)
    return bytes(d)


def generate(rng):
    mode = rng.choice(["iter", "iter", "all", "job", "two", "two", "resume"])
    files = [gen_file(rng) for _ in range(2 if mode == "two" else 1)]
    io = gen.gen_io(rng)
    faults = []
    if rng.random() < .3:
        faults.append(dict(op="read", file="cat%d.csv" % rng.randrange(
            len(files)), nth=rng.choice([0, 1, 2, 3, 5, 9, 20, 60]),
            kind=rng.choice(["EIO", "ESTALE", "ENOMEM", "ETIMEDOUT"])))
    return dict(mode=mode, files=files, io=io, faults=faults,
                order=rng.randrange(1 << 30), same=rng.random() < .3)


class Result(object):
    def __init__(self):
        self.entries, self.exc, self.done = [], None, False

    def fail(self, e):
        self.exc = (type(e).__name__, [str(a) for a in e.args], str(e),
                    isinstance(e, OSError))
        self.done = True


def drive(scn):
    import random
    from mtoolkit.eqcatalog import EqEntryReader
    mode = scn["mode"]
    res = [Result() for _ in scn["files"]]
    if mode == "job":
        from mtoolkit import jobs

        class Ctx(object):
            config = {"eq_catalog_file": "cat0.csv"}
            eq_catalog = None
        try:
            jobs.read_eq_catalog(Ctx)
            res[0].entries = Ctx.eq_catalog
        except Exception as e:
            res[0].fail(e)
            if Ctx.eq_catalog:
                res[0].entries = Ctx.eq_catalog
        return res
    streams, its = [], []
    for i, r in enumerate(res):
        try:
            s = open("cat%d.csv" % (0 if scn["same"] else i))
            streams.append(s)
            reader = EqEntryReader(s)
            if mode == "all":
                r.entries = reader.read_eq_catalog()
                r.done = True
            its.append(iter(reader.read()) if mode != "all" else None)
        except Exception as e:
            r.fail(e)
            its.append(None)
    rng = random.Random(scn["order"])
    live = [i for i, r in enumerate(res) if not r.done and its[i] is not None]
    while live:
        i = rng.choice(live)
        try:
            res[i].entries.append(next(its[i]))
        except StopIteration:
            live.remove(i)
        except Exception as e:
            res[i].fail(e)
            live.remove(i)
            if mode == "resume":
                # a generator that failed is finished: nothing may follow
                for _ in range(3):
                    try:
                        res[i].entries.append(next(its[i]))
                    except StopIteration:
                        break
                    except Exception:
                        pass
    for s in streams:
        try:
            s.close()
        except Exception:
            pass
    return res


def judge(want, got, fired, whole, undecodable):
    kind, entries, bad, _ = want
    n = len(got.entries)
    if n > len(entries):
        return dict(cls="entry-invented", detail=dict(
            want=len(entries), got=n, kind=kind,
            extra=got.entries[len(entries)], bad=bad and sorted(map(str, bad.fields))))
    for i in range(n):
        d = models.diff_entry(got.entries[i], entries[i])
        if d:
            return dict(cls="entry-wrong", detail=dict(
                row=i, fields=d, want=[entries[i].get(k) for k in d],
                got=[got.entries[i].get(k) for k in d]))
    if fired:
        if got.exc is None:
            return dict(cls="read-error-lost", detail=dict(got=n))
        return None
    if kind == "ok":
        if got.exc is not None:
            return dict(cls="valid-refused", detail=got.exc)
        if n != len(entries):
            return dict(cls="entry-missing", detail=[len(entries), n])
        return None
    if got.exc is None:
        return dict(cls="bad-accepted", detail=dict(
            kind=kind, fields=bad and sorted(map(str, bad.fields)), got=n))
    if got.exc[0] == "UnicodeDecodeError" and undecodable:
        return None
    if kind == "header":
        if got.exc[0] != "MalformedCatalogError":
            return dict(cls="wrong-error", detail=got.exc)
    elif kind == "bad":
        if not whole and n != len(entries):
            return dict(cls="entry-missing", detail=[len(entries), n])
        if got.exc[0] != "EqEntryValidationError":
            return dict(cls="wrong-error", detail=got.exc)
        if not got.exc[1] or got.exc[1][0] not in [str(x) for x in bad.fields]:
            return dict(cls="wrong-field", detail=dict(
                want=sorted(map(str, bad.fields)), got=got.exc))
        if bad.line is not None and not got.exc[2].rstrip("')\"").endswith(
                " %d" % bad.line):
            return dict(cls="wrong-line", detail=dict(want=bad.line, got=got.exc))
    return None


def undecodable(data):
    try:
        data.decode("utf-8")
        return False
    except UnicodeDecodeError:
        return True


def execute(scn, env):
    w = env.machine()
    datas = [data_of(f) for f in scn["files"]]
    for i, d in enumerate(datas):
        w.put("cat%d.csv" % i, d)
    out = proc.run_api(w, drive, scn, faults=scn["faults"], io=scn["io"],
                       now=epoch(2012))
    if out.status != "ok":
        return base.bad("reader-crashed", out=out.brief())
    tags = []
    for i, r in enumerate(out.value):
        src = 0 if scn["same"] else i
        want = models.read_catalogue(datas[src], (2012, 2012))
        if want[0] == "csv" and (r.exc is None or r.exc[0] != "Error"):
            # a reader that copes with long fields is as good
            want = models.read_catalogue(datas[src], (2012, 2012), 1 << 30)
        undec = undecodable(datas[src])
        hit = [f for f in out.fired if f["file"] == "cat%d.csv" % src]
        whole = scn["mode"] in ("all", "job")
        if whole and r.exc is not None and not r.entries:
            pass
        if whole and r.exc is not None and r.entries:
            return base.bad("partial-result", n=len(r.entries))
        if hit and scn["same"] and len(out.value) > 1:
            # the error struck one of the two readers of the file
            v = judge(want, r, r.exc is not None and r.exc[3],
                      whole, undec)
        else:
            v = judge(want, r, bool(hit), whole, undec)
        if v:
            v["detail"] = dict(reader=i, what=v["detail"], fired=out.fired)
            return base.Verdict(v)
        env.probe("kind:" + want[0])
        tags.append([want[0], len(r.entries),
                     sorted(map(str, want[2].fields)) if want[2] else None])
    if len(out.value) > 1 and scn["same"] and out.fired and \
            all(r.exc is None for r in out.value):
        return base.bad("read-error-lost", fired=out.fired)
    return base.Verdict(
        nontrivial=any(t[1] or t[0] != "ok" for t in tags),
        sig=base.sig(scn["mode"], tags, [f["kinds"] for f in scn["files"]],
                     [f["nth"] for f in out.fired if "nth" in f]))
