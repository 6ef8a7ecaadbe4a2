"""C09: a written source model is valid and reads back as the same sources."""

from sim import base, gen, models, proc
from sim.world import epoch

ID = "C09"
QUICK, THOROUGH = 6000, 400000
RULE = ("one scenario = a history on one machine: leftovers at the path, "
        "writes of seeded selections of the sources of valid documents that "
        "are killed, hit by I/O errors or torn by a power loss, then a write "
        "that succeeds, a reboot and a reload (for several generations), "
        "judged by the frozen schema and an independent parser; non-trivial "
        "if at least one source was written and reloaded")
MEASURE = ("distinct (generations, sources, selection, special values, "
           "operation/fault sequence) tuples")
SHRINK = [("zones",), ("attempts",), ("pick",), ("edits",)]
SIMPLE = [(("io",), {}), (("stale",), ["none", 0]), (("gens",), 1)]
NUMBERS = []
ASSUME = ["sources have one name, one rupture rate model and a boundary without "
          "holes: what the tool's source objects can hold"]

ALPHABET = ["a", "Z", "0", " ", "\t", "\n", "<", ">", "&", '"', "'", "]", "%",
            "{", "\\", "\u00e9", "\u00df", "\u0416", "\u6771", "\u00a0",
            "\u200b", "\u202e", "\ufffd", "\U0001d538", "\U0001f30b", "e\u0301",
            "\u0085", "\u2028", "-", "#", ";", "\x7f"]
NUMBER = {
    "a": ["0", "-0.0", "1e-320", "1e308", "-7.1", "INF", "-INF", "NaN",
          "0.1000000000000000055", "4.000000000000001"],
    "b": ["0", "1e-9", "0.30000000000000004", "INF", "NaN", "1.7976931348623157E308"],
    "mmin": ["-1", "0", "5.1499999999999995", "NaN", "+3"],
    "mmax": ["8.5", "1e22", "123456789.123456789", "INF", "1E+2"],
    "strike": ["0", "360", "1e-5", "359.99999999999994"],
    "dip": ["0", "90", "89.99999999999999", "1e-17"],
    "rake": ["-180", "180", "-0.0", "1e-300"],
    "hypo": ["0", "1e5", "INF", "NaN", "5e-324", "123456.78901234567"]}
LISTS = {"mags": ["6", "6.0000000000000009", "-1", "NaN", "1e16"],
         "depths": ["0", "1e-5", "INF", "33000.000000000004", "NaN"]}
COORD = ["0", "-0.0", "180", "-180.0", "1e-17", "12.345678901234567", "1e5",
         "179.99999999999997", "INF", "NaN", "0.1", "100000000000000000000"]


def gen_name(rng):
    s = rng.random()
    if s < .3:
        return rng.choice(gen.NAMES)
    if s < .35:
        return "x" * rng.choice([300, 5000, 70000])
    return "".join(rng.choice(ALPHABET) for _ in range(rng.choice([1, 3, 8, 40])))


def generate(rng):
    n = rng.choice([1, 1, 2, 3, 5, 12])
    if rng.random() < .03:
        n = rng.choice([16, 17, 20, 32, 50, 64, 65, 100, 128, 200])
    zones = gen.gen_zones(rng, n)
    edits = []
    for i in range(n):
        if rng.random() < .5:
            edits.append([i, "name", gen_name(rng)])
        for _ in range(rng.choice([0, 0, 1, 3])):
            k = rng.choice(sorted(NUMBER) + ["mags", "depths", "coord", "coord"])
            if k in NUMBER:
                edits.append([i, k, rng.choice(NUMBER[k])])
            elif k in LISTS:
                edits.append([i, k, [rng.choice(LISTS[k]) for _ in
                                     range(rng.choice([1, 2, 7]))]])
            else:
                edits.append([i, k, [rng.randrange(20), rng.randrange(2),
                                     rng.choice(COORD)]])
        if rng.random() < .1:
            edits.append([i, rng.choice(["no-gr-type", "no-mag-type", "no-srs",
                                         "srs", "big-ring"]), rng.randrange(9)])
        if rng.random() < .15:
            edits.append([i, "id", rng.choice(["_x%d", "a.b-c%d", "\u00c9t%d",
                                               "ID%d", "x_%d_"]) % i])
    attempts = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        s = rng.random()
        if s < .6:
            f = dict(op=rng.choice(["write", "write", "openw", "close"]),
                     file="st.xml", nth=rng.choice([0, 0, 1, 2, 5]), kind="CRASH",
                     after=rng.random() < .3,
                     partial=rng.choice([0, 0, 1, 30, 500]))
        elif s < .8:
            f = dict(op="line", frac=rng.random(), kind=rng.choice(
                ["CRASH", "MemoryError", "KeyboardInterrupt"]))
        else:
            f = dict(op=rng.choice(["write", "close", "openw"]), file="st.xml",
                     nth=rng.choice([0, 0, 1]), kind=rng.choice(
                         ["ENOSPC", "EIO", "EDQUOT"]),
                     partial=rng.choice([0, 1, 50]))
        attempts.append(dict(fault=f, take=rng.choice(["same", "all", "half",
                                                       "rev"]),
                             damage=base.gen_damage(rng)
                             if rng.random() < .5 else None))
    pick = list(range(n))
    s = rng.random()
    if s < .25:
        pick = [i for i in pick if rng.random() < .5] or [0]
    elif s < .45:
        rng.shuffle(pick)
    return dict(zones=zones, doc=gen.gen_doc(rng), edits=edits, pick=pick,
                attempts=attempts, io=gen.gen_io(rng), writer=rng.choice(
                    ["new", "new", "same", "twice"]),
                gens=rng.choice([1, 1, 2, 3]), form=rng.choice(["list", "list",
                                                                "tuple"]),
                stale=[rng.choice(base.STALE), rng.randrange(100)])


def document(scn):
    zones = base.clone(scn["zones"])
    drop = []
    for i, k, v in scn["edits"]:
        if i >= len(zones):
            continue
        z = zones[i]
        if k == "coord":
            p = z["poly"][v[0] % len(z["poly"])]
            p[v[1]] = Num(v[2])
        elif k == "big-ring":
            z["poly"] = [[j * .001 - 90., j * j * .0001] for j in range(400)]
        elif k.startswith("no-") or k == "srs":
            drop.append((z["id"], k, v))
        else:
            z[k] = v
    text = gen.model_xml(zones, scn["doc"]).decode()
    for zid, k, v in drop:
        i = text.find('gml:id="%s"' % zid)
        if i < 0:
            continue
        j = text.index("</areaSource>", i)
        part = text[i:j]
        if k == "no-srs":
            part = part.replace(' srsName="urn:ogc:def:crs:EPSG::4326"', "")
        elif k == "srs":
            part = part.replace("urn:ogc:def:crs:EPSG::4326", [
                "epsg:4326", "", "a b", "http://x.org/?a=1&amp;b=2#c", "&lt;",
                "&quot;", "\u00e9", " x", "urn:x"][v % 9])
        else:
            tag = "<truncatedGutenbergRichter" if k == "no-gr-type" else "<magnitude"
            a = part.index(tag) + len(tag)
            b = part.index(">", a)
            part = part[:a] + part[b:]
        text = text[:i] + part + text[j:]
    return text.encode("utf-8")


class Num(float):
    """A coordinate spelled as given."""

    def __new__(cls, text):
        f = float.__new__(cls, text)
        f.text = text
        return f

    def __repr__(self):
        return self.text

    def __deepcopy__(self, memo):
        return self


def store(src, pick, path, how="new", form="list"):
    from mtoolkit.jobs import NRML_SCHEMA_PATH
    from nrml.reader import NRMLReader
    from nrml.writer import AreaSourceWriter
    sources = list(NRMLReader(src, NRML_SCHEMA_PATH).read())
    chosen = sources if pick is None else [sources[i] for i in pick
                                           if i < len(sources)]
    if form == "tuple":
        chosen = tuple(chosen)
    before = [models.source_dict(s) for s in chosen]
    w = AreaSourceWriter(path)
    if how == "twice":
        # the same path written before by another writer, longer
        AreaSourceWriter(path).serialize(chosen + chosen)
    w.serialize(chosen)
    if how == "same":
        w.serialize(chosen)
    return before == [models.source_dict(s) for s in chosen] or \
        repr(before) == repr([models.source_dict(s) for s in chosen])


def load(path):
    from mtoolkit.jobs import NRML_SCHEMA_PATH
    from nrml.reader import NRMLReader
    return [models.source_dict(s) for s in
            NRMLReader(path, NRML_SCHEMA_PATH).read()]


def compare(expect, got, cls, **more):
    if len(got) != len(expect):
        return base.bad(cls + "-count", want=len(expect), got=len(got), **more)
    for i, (x, y) in enumerate(zip(expect, got)):
        d = models.diff_source(x, y)
        if d:
            return base.bad(cls + "-source", index=i, fields=d,
                            want=[str(x.get(k))[:100] for k in d],
                            got=[str(y.get(k))[:100] for k in d], **more)


def execute(scn, env):
    w = env.machine()
    data = document(scn)
    if models.document_error(data) is not None:
        env.probe("invalid-workload")
        return base.Verdict(nontrivial=False)
    want = models.read_sources(data)
    w.put("src.xml", data)
    stale = base.stale_content(scn["stale"][0], data, scn["stale"][1])
    if stale is not None:
        w.put("st.xml", stale)
    n = len(want)
    io, kw = scn["io"], dict(now=epoch(2012))
    lines = 0
    if any(a["fault"]["op"] == "line" for a in scn["attempts"]):
        c = env.machine()
        c.put("src.xml", data)
        lines = proc.run_api(c, store, "src.xml", scn["pick"], "st.xml",
                             trace={}, **kw).lines
    for a in scn["attempts"]:
        take = {"same": scn["pick"], "all": None,
                "half": list(range(max(1, n // 2))),
                "rev": list(range(n))[::-1]}[a["take"]]
        before = w.snapshot()
        fs, tr = base.split_faults([a["fault"]], lines)
        out = proc.run_api(w, store, "src.xml", take, "st.xml", io=io,
                           faults=fs, trace=tr, **kw)
        if out.status == "crash" and a["damage"]:
            base.damage(w, before, a["damage"], env)
    expect = [want[i] for i in scn["pick"] if i < n]
    if not expect:
        return base.Verdict(nontrivial=False)
    src, pick = "src.xml", scn["pick"]
    for g in range(scn["gens"]):
        dst = "st.xml" if g % 2 == 0 else "st2.xml"
        out = proc.run_api(w, store, src, pick, dst, scn["writer"], scn["form"],
                           io=io, **kw)
        if out.status != "ok":
            return base.bad("write-fails", out=out.brief(), generation=g)
        if not out.value:
            return base.bad("writing-changes-the-sources", generation=g)
        text = w.get(dst)
        err = models.document_error(text)
        if err is not None:
            return base.bad("not-valid", error=err, generation=g)
        v = compare(expect, models.read_sources(text), "document", generation=g)
        if v:
            return v
        out = proc.run_api(w, load, dst, io=io, **kw)
        if out.status != "ok":
            return base.bad("reload-fails", out=out.brief(), generation=g)
        v = compare(expect, out.value, "reload", generation=g)
        if v:
            return v
        src, pick = dst, None
    return base.Verdict(nontrivial=True, sig=base.sig(
        base.trace_sig(w), len(expect), scn["gens"],
        sorted(set(e[1] for e in scn["edits"]))))
