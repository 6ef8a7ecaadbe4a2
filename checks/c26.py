"""C26: the log is a true and durable account of the run."""

import re

from sim import base, gen, models
from sim.world import epoch

ID = "C26"
QUICK, THOROUGH = 5000, 200000
RULE = ("one scenario = one workload run with -d undisturbed, whose messages "
        "are compared with the reference model and the written results; then "
        "1-3 boots on another machine, with and without -d, with I/O errors "
        "outside the log, failing calculations and kills, appending to a log "
        "with earlier content; non-trivial if a boot logged something to the "
        "file")
MEASURE = ("distinct (jobs, zones, outcome, where each boot stopped) tuples")
SHRINK = [("boots",), ("boots", "*", "faults"), ("case", "rows"),
          ("case", "zones"), ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs")]
SIMPLE = [(("io",), {}), (("case", "eol"), "\n"), (("quiet",), False),
          (("old",), "none")]
NUMBERS = [("boots", "*", "faults", "*", "nth")]
ASSUME = ["the console and the log file themselves do not fail (C17 is about "
          "that)",
          "wording and headings are taken from the undisturbed run; numbers "
          "are judged where a known phrase introduces them"]


def generate(rng):
    case = gen.gen_case(rng, n=rng.choice([1, 2, 3, 8, 15, 25]), table=.4,
                        nz=rng.choice([1, 2, 3]),
                        **({"model": False} if rng.random() < .1 else {}))
    cfg = case["config"]
    if rng.random() < .06:
        cfg["processing_jobs"] = (cfg["processing_jobs"] or []) + ["Nope"]
    elif rng.random() < .06:
        cfg[rng.choice(["Recurrence", "MaximumMagnitude", "Stepp"])] = {}
    boots = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        faults = []
        s = rng.random()
        if s < .45:
            faults = [base.gen_crash(rng)]
        elif s < .6:
            faults = [base.gen_io_fault(rng, cfg)]
        elif s < .75:
            faults = [base.gen_line_fault(rng)]
        boots.append(dict(detailed=rng.random() < .85, faults=faults,
                          year=rng.choice([2012, 2012, 2030])))
    return dict(case=case, boots=boots, io=gen.gen_io(rng),
                quiet=rng.random() < .25,
                old=rng.choice(base.STALE + ["huge"]),
                seed=rng.randrange(1 << 30))


COUNTS = {
    "read": r"Eq catalog length: (\d+)",
    "sources": r"Eq number source models: (\d+)",
    "left": r"Number of events after declustering: (\d+)",
    "removed": r"Number of events removed during declustering: (\d+)",
    "clusters": r"Number of clusters identified: (-?\d+)",
    "used": r"Number of events into completeness algorithm: (\d+)",
    "stored": r"Stored Eq entries: (\d+)",
    "dropped": r"Number of events removed after preprocessing jobs: (-?\d+)",
    "inside": r"Number of events inside the zone .*: (\d+)",
}
TABLE_STORED = r"Completeness Table stored"
TABLE = re.compile(r"Completeness table:\s*(\[\[[^a-zA-Z*]*?\]\])")
BVALUE = re.compile(r"Bvalue: *(\S+), Sigma_b: *\S+, Avalue: *(\S+),")
MAXMAG = re.compile(r"Max magnitude: *(\S+),")


def expected_counts(p, cfg):
    out = dict(read=[len(p["entries"])], sources=[len(p["sources"])], left=[],
               removed=[], clusters=[], used=[], stored=[], dropped=[], inside=[])
    jobs = cfg["preprocessing_jobs"] or []
    for i, job in enumerate(jobs):
        if job == "Stepp":
            q = models.pipeline(p["entries"], jobs[:i], cfg)
            out["used"].append(len(q["working"]))
        else:
            q = models.pipeline(p["entries"], jobs[:i + 1], cfg)
            out["left"].append(len(q["working"]))
            out["removed"].append(int((q["flag"] != 0).sum()))
            out["clusters"].append(q["clusters"])
    if jobs and cfg["pprocessing_result_file"]:
        n = int(sum(1 for k in p["keep"] if k))
        out["stored"] = [n]
        out["dropped"] = [len(p["entries"]) - n]
    if cfg["apply_processing_jobs"] and cfg["source_model_file"]:
        for s in p["sources"]:
            out["inside"].append(len(base.expected_zone(
                p, s, dict(cfg, processing_jobs=[]))[1]))
    return out


def judge_numbers(text, case, result, env):
    """None or (what, logged, expected)"""
    cfg = case["config"]
    try:
        p = base.reference(case)
    except Exception:
        p = None
    if p is None or p["keep"] is None:
        return None
    env.probe("numbers-judged")
    for what, want in expected_counts(p, cfg).items():
        got = [int(x) for x in re.findall(COUNTS[what], text)]
        if got and got != want:
            return what, got, want
    jobs = cfg["preprocessing_jobs"] or []
    if jobs.count("Stepp") == 1:
        for shown in TABLE.findall(text):
            if "..." in shown:
                continue
            got = [float(x) for x in re.findall(r"[-+.\deinfa]+", shown)]
            want = [float(x) for row in p["table"] for x in row]
            if len(got) != len(want) or any(
                    abs(x - y) > 1e-6 * max(1., abs(y))
                    for x, y in zip(got, want)):
                return "completeness table", got, want
            env.probe("table-in-log")
    if not cfg["apply_processing_jobs"] or not cfg["source_model_file"]:
        return None
    # The parameters reported, in order, are those of zones in order, and
    # every zone whose parameters differ from those read was reported.
    zones = models.read_sources(result)
    sources = p["sources"]
    if len(zones) != len(sources):
        return None
    for what, job, found, keys in (
            ("Bvalue, Avalue", "Recurrence", BVALUE.findall(text), "ba"),
            ("Max magnitude", "MaximumMagnitude",
             [(x,) for x in MAXMAG.findall(text)], ("mmax",))):
        if not found or (cfg["processing_jobs"] or []).count(job) != 1:
            continue
        env.probe("estimate-in-log")
        written = [tuple("%3.3f" % float(z[k]) for k in keys) for z in zones]
        changed = [w for w, s, z in zip(written, sources, zones) if any(
            repr(float(s[k])) != repr(float(z[k])) for k in keys)]
        if not subsequence(found, written):
            return what, found, written
        if not subsequence(changed, found):
            return what + " missing", found, changed
    return None


def subsequence(few, many):
    it = iter(many)
    return all(x in it for x in few)


def one_record(a, b):
    """One text begins with the other and has at most one message more."""
    short, long = sorted([a, b], key=len)
    if not long.startswith(short):
        return False
    rest = long[len(short):].strip("\n")
    return rest.count("\n\n") == 0


def execute(scn, env):
    case = scn["case"]
    cfg = case["config"]
    if not case["zones"] or not case["rows"]:
        return base.Verdict(nontrivial=False)
    log = base.log_file(case)
    a = env.machine()
    base.prepare(a, case)
    lines = any(base.has_line(b["faults"]) for b in scn["boots"])
    first = base.boot(a, scn, detailed=True, trace={} if lines else None)
    text = first.stderr
    if first.status == "error" and first.exc == "SystemExit":
        return base.Verdict(nontrivial=False)
    if (a.get(log) or b"").decode("utf-8", "replace") != text:
        return base.bad("file-and-console-differ", sizes=[
            len(a.get(log) or b""), len(text)])
    if first.status == "ok":
        wrong = judge_numbers(text, case, a.get(cfg["result_file"]), env)
        if wrong:
            return base.bad("wrong-number", what=wrong[0], logged=wrong[1],
                            want=wrong[2])
    if scn["quiet"]:
        q = env.machine()
        base.prepare(q, case)
        out = base.boot(q, scn, detailed=False)
        if not subsequence(out.stderr.split("\n\n"), text.split("\n\n")):
            return base.bad("another-story-without-detail",
                            quiet=out.stderr[-200:])
        if q.get(log) is not None:
            return base.bad("log-without-detail")
    b = env.machine()
    base.prepare(b, case)
    old = base.stale_content(scn["old"], text.encode(), 3)
    if scn["old"] == "huge":
        old = b"* Eq catalog length: 12\n\n" * 50000
    if old is not None:
        b.put(log, old, epoch(2011))
    tags, logged = [], 0
    for one in scn["boots"]:
        base.prepare(b, case)
        io, trace = base.split_faults(base.place(one["faults"], a), first.lines)
        for f in gen.outputs_of(cfg):
            b.delete(f)
        before = b.get(log)
        out = base.boot(b, scn, faults=io, trace=trace,
                        detailed=one["detailed"], now=epoch(one["year"]))
        after = b.get(log)
        where = dict(status=out.status, exc=out.exc, fired=out.fired)
        for phrase, f in ((COUNTS["stored"], cfg["pprocessing_result_file"]),
                          (TABLE_STORED, cfg["completeness_table_file"])):
            if re.search(phrase, out.stderr + (
                    (after or b"")[len(before or b""):].decode(
                        "utf-8", "replace") if one["detailed"] else "")):
                env.probe("stored-message")
                if b.get(f) != a.get(f):
                    return base.bad("stored-is-not-true", file=f, **where)
        if not one["detailed"]:
            if after != before:
                return base.bad("log-without-detail", **where)
            tags.append([0, out.status])
            continue
        if any(f.get("file") == log for f in out.fired if
               f["kind"] != "CRASH") or first.status == "error" and \
                out.status == "error" and out.exc != first.exc and \
                not out.fired:
            continue
        if not (after or b"").startswith(before or b""):
            return base.bad("earlier-log-lost", **where)
        got = (after or b"")[len(before or b""):].decode("utf-8", "replace")
        logged += bool(got)
        if out.status == "crash":
            if not one_record(got.rstrip("\ufffd"), out.stderr):
                return base.bad("lost-at-kill", file=got[-200:],
                                console=out.stderr[-200:], **where)
        elif got != out.stderr:
            return base.bad("file-and-console-differ", file=got[-200:],
                            console=out.stderr[-200:], **where)
        if out.status == "ok" and first.status == "ok" and \
                out.stderr != text:
            return base.bad("another-story", got=out.stderr[-200:],
                            want=text[-200:], **where)
        if not text.startswith(out.stderr):
            return base.bad("another-story", got=out.stderr[-200:],
                            want=text[-200:], **where)
        tags.append([out.status, out.exc, out.stderr.count("\n\n")])
        env.probe("log:%s" % out.status)
    return base.Verdict(nontrivial=logged > 0, sig=base.sig(
        cfg["preprocessing_jobs"], cfg["processing_jobs"], len(case["zones"]),
        first.brief(), tags))
