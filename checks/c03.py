"""C03: a run touches only its own outputs, and not before they are computed."""

from sim import base, gen, models

ID = "C03"
QUICK, THOROUGH = 6000, 130000
RULE = ("one scenario = one boot on a disk with bystander files, old outputs "
        "and (by kind) no fault, seeded I/O errors or crash, an exception "
        "inside a calculation, inputs in error, or an invocation that must "
        "do nothing (no arguments, help, version, no such file); the whole disk is compared "
        "before and after; non-trivial if the boot did what its kind says "
        "(succeeded, was killed, or failed)")
MEASURE = "distinct hashes of (kind, operation/fault/exit sequence)"
SHRINK = [("faults",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("detailed",), False), (("case", "eol"), "\n"),
          (("table",), None)]
NUMBERS = [("faults", "*", "partial"), ("faults", "*", "nth")]
BYSTANDERS = {"debug.log": b"older log\n", "out/notes.txt": b"keep me\n",
              "out/result.xml.bak": b"<old/>\n", "other/pre.csv": b"a,b\n",
              "src.xml.orig": b"<xml/>", "out/pre.csv.1": b"",
              "result.xml": b"<elsewhere/>", "pre.csv": b"1,2\n",
              "out/.hidden": b"\0\1\2", "table.csv": b"1,1\n",
              "temp.csv": b"1", "cat.csv.bak": b"x", "out/older.tmp": b"t",
              "out/core.tmp": b"", "out/pre.csv.old": b"1", "tmp/x": b"y",
              "out/sub/deep.xml": b"<a/>", "out/zzz.xml": b"<z/>",
              "out/other.csv": b"9,9\n", "lock": b""}
KINDS = ["clean"] * 3 + ["io"] * 4 + ["crash"] * 4 + ["calc"] * 4 + [
    "unknown_pre", "unknown_proc", "bad_row", "bad_row", "bad_header",
    "empty_cat", "xml_trunc", "xml_trunc", "xml_bytes", "xml_invalid", "bowtie",
    "bowtie", "cfg_key", "cfg_key", "cfg_key", "cfg_syntax", "missing",
    "stepp_long", "bad_algorithm", "proc_value", "args"]
ARGS = [[], ["-h"], ["--help"], ["-v"], ["--version"], ["-d"], ["-i"], ["-x"],
        ["-i", "nowhere.yml"], ["-d", "-i", "nowhere.yml"], ["cfg.yml"],
        ["-i", "cfg.yml", "-x"], ["-i", "cfg.yml", "out/result.xml"], ["-i", ""],
        ["-i", "out"], ["-i", "src.xml"], ["-i", "out/notes.txt"]]
SECTIONS = ["GardnerKnopoff", "Afteran", "Stepp", "Recurrence",
            "MaximumMagnitude"]


def generate(rng):
    kind = rng.choice(KINDS)
    case = gen.gen_case(rng, n=rng.choice([3, 8, 15, 25, 40]))
    scn = dict(kind=kind, case=case, io=gen.gen_io(rng), faults=[],
               detailed=rng.random() < .25, seed=rng.randrange(1 << 30),
               pick=rng.randrange(1 << 20), frac=rng.random(),
               table=gen_table(rng) if rng.random() < .4 else None,
               stale={f: [rng.choice(base.STALE[1:]), rng.randrange(100)]
                      for f in gen.outputs_of(case["config"])})
    if kind == "io":
        scn["faults"] = [base.gen_io_fault(rng, case["config"])
                         for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .15:
            scn["faults"].append(base.gen_line_fault(rng))
    elif kind == "crash":
        scn["faults"] = [base.gen_crash(rng)]
    elif kind == "calc":
        scn["exc"] = rng.choice(["MemoryError", "KeyboardInterrupt",
                                 "FloatingPointError", "CRASH"])
    return scn


def gen_table(rng):
    """A completeness table as a user may have written it."""
    rows = [[rng.randint(1850, 1990), round(rng.uniform(3, 5), rng.choice([0, 1, 3]))]
            for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    order = rng.choice(["asc", "desc", "any"])
    if order != "any":
        rows.sort(reverse=order == "desc")
    fmt = rng.choice(["%10.5f,%10.5f", "%g,%g", " %d , %.2f", "%.1f,%.1f",
                      "%.8f,%.8f", "%d,%s"])
    eol = rng.choice(["\n", "\n", "\r\n"])
    return rng.choice(["", "", "", "# year,magnitude" + eol]) + eol.join(
        fmt % tuple(r) for r in rows) + rng.choice([eol, ""])


def spoil(scn):
    """Files to overwrite (None: delete) so that the inputs are in error."""
    case = base.clone(scn["case"])
    cfg, kind, pick, frac = case["config"], scn["kind"], scn["pick"], scn["frac"]
    ins = gen.files_of(case)
    if kind in ("unknown_pre", "unknown_proc"):
        k = "preprocessing_jobs" if kind == "unknown_pre" else "processing_jobs"
        jobs = list(cfg[k] or [])
        jobs.insert(pick % (len(jobs) + 1), ["NoSuchJob", "stepp", "Recurence",
                                             "read_eq_catalog"][pick % 4])
        cfg[k] = jobs
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout"))}
    if kind == "bad_row":
        rows = case["rows"]
        if not rows:
            return {}
        r = rows[pick % len(rows)]
        col, v = [(0, "x"), (3, "3000"), (4, "13"), (5, "0"), (10, "181"),
                  (11, ""), (15, "-1"), (17, ""), (17, "six")][pick % 9]
        r[col] = v
        return {"cat.csv": gen.csv_bytes(rows)}
    if kind == "bad_header":
        return {"cat.csv": ins["cat.csv"].replace(b"longitude", b"long", 1)}
    if kind == "empty_cat":
        return {"cat.csv": gen.csv_bytes([])}
    if kind == "xml_trunc":
        return {"src.xml": ins["src.xml"][:int(frac * (len(ins["src.xml"]) - 9))]}
    if kind == "xml_bytes":
        d = bytearray(ins["src.xml"])
        d[int(frac * len(d))] = [0, 0xff, 0x3c, 0x26][pick % 4]
        return {"src.xml": bytes(d)}
    if kind == "xml_invalid":
        d = ins["src.xml"]
        for tag in [b"hypocentralDepth", b"dip", b"bValue",
                    b"tectonicRegion"][pick % 4:]:
            i = d.rfind(b"<" + tag + b">")
            if i >= 0:
                j = d.index(b"</" + tag + b">", i) + len(tag) + 3
                return {"src.xml": d[:i] + d[j:]}
        return {}
    if kind == "bowtie":
        if not case["zones"]:
            return {}
        z = case["zones"][pick % len(case["zones"])]
        x, y = z["poly"][0]
        z["poly"] = [[x, y], [x + 2., y + 2.], [x + 2., y], [x, y + 2.]]
        return {"src.xml": gen.model_xml(case["zones"], case["doc"])}
    if kind == "cfg_key":
        keys = [(s, k) for s in SECTIONS for k in sorted(cfg[s])] + \
            [(k, None) for k in sorted(cfg)]
        used = set((cfg["preprocessing_jobs"] or []) +
                   (cfg["processing_jobs"] or []))
        if pick % 3:
            keys = [x for x in keys if x[0] in used] or keys
        s, k = keys[pick // 3 % len(keys)]
        if k is None:
            del cfg[s]
        else:
            del cfg[s][k]
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout"))}
    if kind == "cfg_syntax":
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout")) + b"\nbroken: [1, 2\n: }\n"}
    if kind == "missing":
        return {["cat.csv", "src.xml", "cfg.yml"][pick % 3]: None}
    if kind == "stepp_long":
        cfg["Stepp"]["time_window"] = 100000
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout"))}
    if kind == "bad_algorithm":
        cfg["Recurrence"]["recurrence_algorithm"] = "NoSuchAlgorithm"
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout"))}
    if kind == "proc_value":
        s = ["Recurrence", "MaximumMagnitude"][pick % 2]
        k = sorted(cfg[s])[pick // 2 % len(cfg[s])]
        cfg[s][k] = "abc"
        return {"cfg.yml": gen.config_bytes(cfg, case.get("layout"))}
    return {}


def execute(scn, env):
    case, kind = scn["case"], scn["kind"]
    cfg = case["config"]
    io_scn = dict(scn)
    extra = {}
    if scn["table"] and not cfg["preprocessing_jobs"]:
        # a table that the run only reads
        case = base.clone(case)
        cfg = case["config"]
        cfg["completeness_table_file"] = "in-table.csv"
        extra["in-table.csv"] = scn["table"].encode()
        io_scn["case"] = case
    tr = None
    if kind == "calc":
        tr = dict(only="mtoolkit/scientific/")
    elif base.has_line(scn["faults"]):
        tr = {}
    a = env.machine()
    base.prepare(a, case, extra)
    clean = base.boot(a, scn, trace=tr)
    new = base.outputs(a, cfg)
    b = env.machine()
    base.prepare(b, case, extra)
    for f, (what, seed) in scn["stale"].items():
        data = base.stale_content(what, new.get(f), seed)
        if data is not None:
            b.put(f, data)
    for f, data in BYSTANDERS.items():
        b.put(f, data)
    logfile = base.log_file(case)
    b.put(logfile, BYSTANDERS["debug.log"])
    io, trace = [], None
    bad_input = False
    if kind in ("io", "crash"):
        io, trace = base.split_faults(base.place(scn["faults"], a), clean.lines)
    elif kind == "calc":
        if clean.sublines:
            trace = dict(only="mtoolkit/scientific/", exc=scn["exc"],
                         at=1 + int(scn["frac"] * clean.sublines))
    elif kind != "clean":
        for f, data in spoil(io_scn).items():
            bad_input = True
            if data is None:
                b.delete(f)
            else:
                b.put(f, data)
    before = b.snapshot()
    if kind == "args":
        args = ARGS[scn["pick"] % len(ARGS)]
        out = base.boot(b, scn, args=args)
        scn = dict(scn, detailed="-d" in args)
    else:
        out = base.boot(b, scn, faults=io, trace=trace)
    after = b.snapshot()
    outs = set(new)
    if out.escapes:
        return base.bad("touches-other-places", what=out.escapes[:3])
    if kind == "args":
        outs = set()        # asks for no output
    log = {logfile} if scn["detailed"] else set()
    for f in sorted(before):
        if f in outs or f in log:
            continue
        if f not in after:
            return base.bad("file-deleted", file=f, out=out.brief())
        if before[f] != after[f]:
            return base.bad("file-changed", file=f, out=out.brief())
    for f in b.touched:
        if f in before and f not in outs and f not in log:
            return base.bad("opened-for-writing", file=f, out=out.brief())
    if log and not after.get(logfile, b"").startswith(before[logfile]):
        # written by the run itself, but never at the cost of older records
        env.probe("log-replaced")
    if out.status == "ok":
        extra_files = [f for f in after if f not in before and f not in outs
                       and f not in log]
        if extra_files:
            return base.bad("file-created", files=extra_files[:5])
    else:
        computed = kind not in ("io", "crash")
        for f in sorted(outs):
            old, cur = before.get(f), after.get(f)
            if cur == old:
                continue
            if f == cfg["result_file"] and computed:
                return base.bad("result-destroyed", kind=kind, out=out.brief(),
                                size=None if cur is None else len(cur))
            if bad_input or kind == "calc":
                if cur != new[f]:
                    return base.bad("output-neither-old-nor-new", file=f,
                                    kind=kind, out=out.brief())
            elif cur is None:
                return base.bad("output-deleted", file=f, kind=kind)
            elif new[f] is None or not new[f].startswith(cur):
                return base.bad("output-garbled", file=f, kind=kind,
                                out=out.brief(), fired=out.fired)
    did = kind == "args" or (out.status == "ok") == (kind == "clean")
    env.probe("%s:%s" % (kind, out.status))
    return base.Verdict(nontrivial=did, sig=base.sig(kind, base.trace_sig(b)))
