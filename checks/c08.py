"""C08: source-model reading is all or error."""

import random
import re

from sim import base, gen, models, proc
from sim.sched import Scheduler, sim_locks
from sim.world import epoch

ID = "C08"
QUICK, THOROUGH = 16000, 800000
RULE = ("one scenario = one or two source-model documents with seeded XML "
        "styles and mutations (truncation, byte damage, removed, repeated or "
        "invalid parts), read through the simulated disk with seeded chunks "
        "and read errors by one, or two interleaved, readers, by readers in "
        "threads under the seeded scheduler, or by the job; "
        "judged by the frozen schema and an independent parser; non-trivial if "
        "a source was delivered or a document refused")
MEASURE = ("distinct (mode, valid or error kind, sources delivered, mutation "
           "kinds, styles, fault position, schedule) tuples")
SHRINK = [("policy", "switches"), ("docs", "*", "zones"), ("docs", "*", "styles"),
          ("docs", "*", "muts"), ("faults",)]
SIMPLE = [(("io",), {}), (("docs", "*", "points"), 0)]
NUMBERS = [("faults", "*", "nth")]
ASSUME = ["documents whose only defect is a repeated gml:id may load or fail "
          "(the repository's own test data has one and must load)",
          "documents with a DTD are not generated: libxml2 2.14 itself crashes "
          "on entity references under streaming schema validation"]

POINT = """    <pointSource gml:id="pt_%d">
      <gml:name>point</gml:name>
      <tectonicRegion>Volcanic</tectonicRegion>
      <location><gml:Point srsName="epsg:4326"><gml:pos>-122.0 38.0</gml:pos></gml:Point></location>
      <ruptureRateModel>
        <truncatedGutenbergRichter type="ML">
          <aValueCumulative>5.0</aValueCumulative><bValue>0.8</bValue>
          <minMagnitude>5.0</minMagnitude><maxMagnitude>7.0</maxMagnitude>
        </truncatedGutenbergRichter>
        <strike>1</strike><dip>2</dip><rake>3</rake>
      </ruptureRateModel>
      <ruptureDepthDistribution>
        <magnitude type="ML">6.0</magnitude><depth>5.0</depth>
      </ruptureDepthDistribution>
      <hypocentralDepth>5.0</hypocentralDepth>
    </pointSource>
"""
STYLES = ["comment-in", "pi-in", "cdata", "charref", "between", "prefix",
          "utf16", "latin1", "crlf", "attrs", "tail", "bom",
          "spaces", "exponent"]
TAGS = ["aValueCumulative", "bValue", "minMagnitude", "maxMagnitude", "strike",
        "dip", "rake", "magnitude", "depth", "hypocentralDepth", "areaBoundary",
        "ruptureRateModel", "ruptureDepthDistribution", "tectonicRegion",
        "gml:name", "gml:posList", "truncatedGutenbergRichter", "areaSource",
        "sourceModel", "config", "gml:LinearRing"]


PAIRS = ("two", "threads")      # two documents, two readers


def gen_docspec(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 5, 30])
    if rng.random() < .02:
        n = rng.choice([16, 32, 64, 65, 100, 128, 200])
    zones = gen.gen_zones(rng, n)
    styles = [[rng.choice(STYLES), rng.randrange(1 << 20)]
              for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    muts = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2])):
        muts.append([rng.choice(["cut", "cut", "flip", "del", "ins", "drop",
                                 "twice", "value", "value", "region", "rename",
                                 "swap", "id", "attr", "ns", "junk"]),
                     rng.random(), rng.randrange(1 << 20)])
    return dict(zones=zones, doc=gen.gen_doc(rng), points=rng.choice([0, 0, 0, 1, 2]),
                styles=styles, muts=muts)


def generate(rng):
    mode = rng.choice(["iter", "iter", "iter", "job", "job", "two", "two",
                       "twice", "twice", "threads"])
    docs = [gen_docspec(rng) for _ in range(2 if mode in PAIRS else 1)]
    faults = []
    if rng.random() < .25:
        faults.append(dict(op=rng.choice(["read", "read", "open"]),
                           file="d%d.xml" % rng.randrange(len(docs)),
                           nth=rng.choice([0, 1, 2, 3, 9, 40]),
                           kind=rng.choice(["EIO", "ESTALE", "ENOMEM", "EACCES"])))
    policy = dict(kind=rng.choice(["random", "random", "rr", "meet", "meet"]),
                  one_in=rng.choice([1, 3, 6]), burst=rng.choice([10, 40]),
                  seed=rng.randrange(1 << 30), p=rng.choice([.01, .05, .3]),
                  quantum=rng.choice([1, 2, 7, 50]))
    return dict(mode=mode, docs=docs, io=gen.gen_io(rng), faults=faults,
                order=rng.randrange(1 << 30), same=rng.random() < .3,
                policy=policy)


def values(text):
    """(start, end) of the text of elements holding one number."""
    return [(m.start(2), m.end(2)) for m in re.finditer(
        r"<(\w+)>([-+.\deE]+)</\1>", text)]


def styled(d):
    """(bytes, the styles that were applied)"""
    text = gen.model_xml(d["zones"], d["doc"]).decode()
    if d["points"]:
        i = text.index("  </sourceModel>")
        for k in range(d["points"]):
            # before, between or after the area sources
            j = [m.start() for m in re.finditer(r"    <areaSource", text)] + [i]
            at = j[k * 7 % len(j)]
            text = text[:at] + POINT % k + text[at:]
            i = text.index("  </sourceModel>")
    enc = "utf-8"
    for style, pick in d["styles"]:
        vs = values(text)
        v = vs[pick % len(vs)] if vs else None
        if style in ("comment-in", "pi-in") and v and v[1] - v[0] > 1:
            m = v[0] + 1 + pick % (v[1] - v[0] - 1)
            text = text[:m] + ("<!-- note -->" if style == "comment-in" else
                               "<?app note?>") + text[m:]
        elif style == "cdata" and v:
            text = text[:v[0]] + "<![CDATA[" + text[v[0]:v[1]] + "]]>" + text[v[1]:]
        elif style == "charref" and v:
            text = text[:v[0]] + "&#%d;" % ord(text[v[0]]) + text[v[0] + 1:]
        elif style == "spaces" and v:
            text = text[:v[0]] + "\n  \t " + text[v[0]:v[1]] + " \n" + text[v[1]:]
        elif style == "exponent" and v:
            try:
                x = float(text[v[0]:v[1]])
                text = text[:v[0]] + "%.17E" % x + text[v[1]:]
            except ValueError:
                pass
        elif style == "between":
            j = [m.end() for m in re.finditer(r"</\w+>", text)]
            if j:
                at = j[pick % len(j)]
                text = text[:at] + "<!-- <areaSource> -->" + text[at:]
        elif style == "prefix" and "<nr:" not in text:
            text = re.sub(r"<(/?)([a-zA-Z]+)(?=[\s/>])", r"<\1nr:\2", text)
            text = text.replace('xmlns="', 'xmlns:nr="', 1)
        elif style == "utf16" and enc == "utf-8":
            enc = "utf-16"
            text = text.replace('encoding="UTF-8"', 'encoding="UTF-16"', 1)
        elif style == "latin1" and enc == "utf-8":
            try:
                text.encode("latin-1")
                enc = "latin-1"
                text = text.replace('encoding="UTF-8"', 'encoding="ISO-8859-1"', 1)
            except UnicodeEncodeError:
                pass
        elif style == "crlf":
            text = text.replace("\r\n", "\n").replace("\n", "\r\n")
        elif style == "attrs":
            text = re.sub(r'gml:id="(\w+)"', r"gml:id = '\1'\n ", text)
        elif style == "tail":
            text += "\n<!-- end -->\n<?done?>\n  "
        elif style == "bom" and enc == "utf-8" and text[0] == "<":
            text = "\ufeff" + text
    return text.encode(enc)


def document(d):
    data = styled(d)
    for what, frac, pick in d["muts"]:
        i = int(frac * len(data))
        if what == "cut":
            data = data[:i]
            continue
        if what == "flip":
            data = data[:i] + bytes([pick % 256]) + data[i + 1:]
            continue
        if what == "del":
            data = data[:i] + data[i + 1 + pick % 3:]
            continue
        if what == "ins":
            data = data[:i] + bytes([pick % 256]) + data[i:]
            continue
        if what == "junk":
            data += [b"<", b"x", b"\0", b"<a/>", b"&"][pick % 5]
            continue
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            continue
        tag = TAGS[pick % len(TAGS)]
        spans = [m.span() for m in re.finditer(
            r"<%s[\s>].*?</%s>" % (tag, tag), text, re.S)]
        if what in ("drop", "twice", "swap") and spans:
            s, e = spans[int(frac * len(spans))]
            if what == "drop":
                text = text[:s] + text[e:]
            elif what == "twice":
                text = text[:e] + text[s:e] + text[e:]
            else:
                s2, e2 = spans[-1]
                if s2 > e:
                    text = text[:s] + text[s2:e2] + text[e:s2] + text[s:e] + text[e2:]
        elif what == "value":
            vs = values(text)
            if vs:
                s, e = vs[int(frac * len(vs))]
                v = ["", "abc", "1,5", "NaN", "INF", "-INF", "1e999", "0x1", "--1",
                     "1 2", "nan", "inf", "1.", ".5", "-0"][pick % 15]
                text = text[:s] + v + text[e:]
        elif what == "region":
            text = re.sub(r"(<tectonicRegion>)[^<]*", r"\1%s" % [
                "Nowhere", "", "Volcanic ", "volcanic", "Volcanic"][pick % 5],
                text, count=1)
        elif what == "rename":
            text = text.replace("<%s>" % tag, "<%sX>" % tag, 1)
        elif what == "id":
            text = text.replace('gml:id="src_1"', ['gml:id="src_0"', 'gml:id="1x"',
                                                   "", 'gml:id=""'][pick % 4], 1)
        elif what == "attr":
            text = re.sub(r' (type|srsName)="[^"]*"', ["", ' type="Mx"',
                          ' foo="1"', ' type=""'][pick % 4], text, count=1)
        elif what == "ns":
            text = text.replace("nrml/0.3", ["nrml/0.2", "nrml", "nrml/0.3/"]
                                [pick % 3], 1)
        data = text.encode("utf-8")
    return data


class R(object):
    def __init__(self):
        self.got, self.exc = [], None


def read_all(path, r, job):
    """One reader, from its construction to the end of its document."""
    from mtoolkit import jobs
    from nrml.reader import NRMLReader
    keep = []
    try:
        if job:
            class Ctx(object):
                config = {"source_model_file": path}
                sm_definitions = None
            jobs.read_source_model(Ctx)
            keep = Ctx.sm_definitions
        else:
            for s in NRMLReader(path, jobs.NRML_SCHEMA_PATH).read():
                keep.append(s)
    except Exception as e:
        r.exc = type(e).__name__
    return keep


def drive(scn, w, holder):
    with sim_locks():
        return driven(scn, w, holder)


def driven(scn, w, holder):
    from mtoolkit import jobs
    from nrml.reader import NRMLReader
    n = 2 if scn["mode"] in ("two", "twice", "threads") else 1
    res = [R() for _ in range(n)]
    name = lambda i: "d%d.xml" % (i if scn["mode"] in PAIRS and
                                  not scn["same"] else 0)
    if scn["mode"] == "threads":
        bodies = [lambda i=i: read_all(name(i), res[i],
                                       (scn["order"] >> i) & 1)
                  for i in range(n)]
        holder["sched"] = sched = Scheduler(w, scn["policy"], bodies)
        got, errors = sched.run()
        for r, g, e in zip(res, got, errors):
            if e is not None:
                raise RuntimeError("thread: %s %s" % e)
            r.got = [models.source_dict(s) for s in g]
        return res
    if scn["mode"] == "job":
        class Ctx(object):
            config = {"source_model_file": "d0.xml"}
            sm_definitions = None
        try:
            jobs.read_source_model(Ctx)
        except Exception as e:
            res[0].exc = type(e).__name__
        if Ctx.sm_definitions is not None:
            res[0].got = [models.source_dict(s) for s in Ctx.sm_definitions]
            res[0].whole = True
        else:
            res[0].whole = False
        return res
    if scn["mode"] == "twice":
        # the same reader object used twice
        reader = None
        for r in res:
            try:
                reader = reader or NRMLReader(name(0), jobs.NRML_SCHEMA_PATH)
                for s in reader.read():
                    r.got.append(models.source_dict(s))
            except Exception as e:
                r.exc = type(e).__name__
        return res
    its, keep = [], []
    for i, r in enumerate(res):
        its.append(iter(NRMLReader(name(i), jobs.NRML_SCHEMA_PATH).read()))
        keep.append([])
    live = list(range(n))
    rng = random.Random(scn["order"])
    while live:
        i = rng.choice(live)
        try:
            keep[i].append(next(its[i]))
        except StopIteration:
            live.remove(i)
        except Exception as e:
            res[i].exc = type(e).__name__
            live.remove(i)
    for i, r in enumerate(res):
        # looked at only now: nothing may have changed them since
        r.got = [models.source_dict(s) for s in keep[i]]
    return res


def mismatch(want, got):
    """None if got is an initial part of want."""
    if len(got) > len(want):
        return dict(cls="source-invented")
    for k, s in enumerate(got):
        bad = ["unreadable"] if want[k] is None else \
            models.diff_source(want[k], s)
        if bad:
            return dict(cls="source-wrong", fields=bad, index=k,
                        got_values=[s.get(x) for x in bad],
                        want_values=want[k] and [want[k].get(x) for x in bad])
    return None


def execute(scn, env):
    w = env.machine()
    datas = [document(d) for d in scn["docs"]]
    for i, d in enumerate(datas):
        w.put("d%d.xml" % i, d)
    holder = {}
    out = proc.run_api(w, drive, scn, w, holder, io=scn["io"], faults=scn["faults"],
                       now=epoch(2012))
    sched = holder.get("sched")
    if sched is not None:
        scn["_switches"] = sched.switches
        w.event("SCHEDULE", len(sched.switches), sched.step,
                base.sig(sched.switches))
        env.probe("switches", len(sched.switches))
    if out.status != "ok":
        return base.bad("reader-crashed", out=out.brief())
    tags = []
    fired_lost = bool(out.fired)
    for i, r in enumerate(out.value):
        src = i if scn["mode"] in PAIRS and not scn["same"] else 0
        data, spec = datas[src], scn["docs"][src]
        err = models.document_error(data)
        try:
            want = models.read_sources(data) if err in (
                None, models.REPEATED_ID) else \
                models.partial_sources(data)
        except Exception:       # an encoding only one of the parsers knows
            want = models.recovered_sources(data)
        d = dict(reader=i, exc=r.exc, error=err, fired=out.fired,
                 want=len(want), got=len(r.got))
        hit = any(f["file"] == "d%d.xml" % src for f in out.fired)
        if r.exc is not None:
            fired_lost = False
        if scn["mode"] == "job" and r.exc is not None and r.whole:
            return base.bad("partial-result", **d)
        first = mismatch(want, r.got)
        if first and err:
            # which sources precede the error is not the same for every
            # parser: libxml2 reads on after some errors and reports them last
            if mismatch(models.recovered_sources(data), r.got) is None:
                first = None
        if first:
            return base.bad(first.pop("cls"), **dict(first, **d))
        if err == models.REPEATED_ID:
            env.probe("repeated-id")
            if r.exc is None and len(r.got) != len(want):
                return base.bad("source-missing", **d)
        elif err is not None:
            if r.exc is None:
                return base.bad("invalid-accepted", **d)
        elif r.exc is None:
            if len(r.got) != len(want):
                return base.bad("source-missing", **d)
        elif not hit and not spec["muts"]:
            return base.bad("valid-refused", **d)
        env.probe("valid" if err is None else "invalid")
        tags.append([err is None, r.exc, len(r.got), [m[0] for m in spec["muts"]],
                     sorted(set(s[0] for s in spec["styles"]))])
    if fired_lost:
        return base.bad("read-error-lost", fired=out.fired)
    return base.Verdict(nontrivial=any(t[2] or t[1] for t in tags),
                        sig=base.sig(scn["mode"], tags,
                                     [f["nth"] for f in out.fired],
                                     sched.switches if sched else None))


def concrete(scn, env):
    """The scenario with its schedule written out as switches."""
    if scn["mode"] != "threads":
        return scn
    s = base.clone(scn)
    try:
        execute(s, env)
    finally:
        env.finish()
    switches = s.pop("_switches", None)
    if switches is None:
        return scn
    s["policy"] = dict(kind="forced", switches=[list(x) for x in switches])
    return s
