"""Workload generators: catalogues, source models, configurations.

Everything is drawn from the random.Random passed in; the result is plain JSON
data (rows, zones, config) so that scenarios can be stored, shrunk, replayed.
"""

import json
import math
import posixpath
import zlib
from xml.sax.saxutils import escape, quoteattr

from .models import FIELDS, HEADER

REGIONS = ["Active Shallow Crust", "Stable Shallow Crust",
           "Subduction Interface", "Subduction IntraSlab", "Volcanic"]
NAMES = ["Quito", "Source Dummy", "A & B", "<zone>", "Zone \"q\" 'x'", "Ñandú é",
         "Мир", "東京", "a  b", " lead", "trail ", "x;y,z", "%s %d {0}", "100%",
         "-", "zone\u00a0nbsp", "]]>", "", "  "]
IDS = ["_%d", "z.%d", "Quito-%d", "\u00c9t\u00e9_%d", "SRC%d_"]
AGENCIES = ["AAA", "ISC", "", "NEIC", "A,B", 'Q"x"', "Ünï", " sp ", "HRVD", "0",
            "nan", "a;b", "'q'"]


# ------------------------------------------------------------------ zones

def poly_of(rng, cx, cy, kind=None):
    kind = kind or rng.choice(["rect", "rect", "rect", "tri", "hex", "closed",
                               "concave", "quad", "diamond", "ell", "round"])
    ring = _ring(rng, cx, cy, kind)
    if kind != "closed" and rng.random() < .3:
        # the other way round, from another point
        k = rng.randrange(len(ring))
        ring = (ring[k:] + ring[:k])[::rng.choice([1, -1])]
    return ring


def _ring(rng, cx, cy, kind):
    w, h = rng.choice([1.0, 1.5, 2.0]), rng.choice([1.0, 1.5, 2.0])
    if kind == "quad":
        return [[cx - w, cy - h], [cx - w / 2, cy + h], [cx + w / 4, cy + h],
                [cx + w, cy - h / 2]]
    if kind == "diamond":
        return [[cx - w, cy], [cx, cy + h], [cx + w, cy], [cx, cy - h]]
    if kind == "ell":
        return [[cx - w, cy - h], [cx - w, cy + h], [cx, cy + h], [cx, cy],
                [cx + w, cy], [cx + w, cy - h]]
    if kind == "round":
        k = rng.choice([9, 16, 40])
        return [[round(cx + w * math.cos(2 * math.pi * j / k), 4),
                 round(cy + h * math.sin(2 * math.pi * j / k), 4)]
                for j in range(k)]
    rect = [[cx - w, cy - h], [cx - w, cy + h], [cx + w, cy + h], [cx + w, cy - h]]
    if kind == "rect":
        return rect
    if kind == "closed":
        return rect + [list(rect[0])]
    if kind == "tri":
        return [[cx - w, cy - h], [cx, cy + h], [cx + w, cy - h]]
    if kind == "concave":
        return [rect[0], rect[1], [cx, cy + h / 4], rect[2], rect[3]]
    return [[cx - w, cy], [cx - w / 2, cy + h], [cx + w / 2, cy + h],
            [cx + w, cy], [cx + w / 2, cy - h], [cx - w / 2, cy - h]]


def num(rng, v):
    """One of several spellings of the same number."""
    s = rng.random()
    if s < .6:
        return repr(float(v))
    if s < .75 and float(v) == int(float(v)):
        return str(int(float(v)))
    if s < .85:
        return "%.3e" % v if float("%.3e" % v) == float(v) else repr(float(v))
    if s < .93:
        return "%s0" % repr(float(v)) if "e" not in repr(float(v)) else repr(float(v))
    return repr(float(v))


def gen_zone(rng, i, simple=False):
    cx = rng.choice([20.0, -75.0, 100.0, 150.0]) if not simple else 20.0
    cx += 5.0 * (i % 6) * (1 if cx < 90 else 1)
    cy = rng.choice([35.0, -10.0, 0.0, 50.0])
    if rng.random() < .12:
        d = rng.choice([1, 3, 6, 7, 8, 9])
        cx = round(cx + rng.uniform(0, .5), d)
        cy = round(cy + rng.uniform(0, .5), d)
    name = "Zone %d" % i if simple or rng.random() < .5 else rng.choice(NAMES)
    k = rng.randint(1, 3) if rng.random() < .95 else 9
    default = rng.random() < .4
    fine = rng.random() < .1
    val = lambda lo, hi, d=2: rng.uniform(lo, hi) if fine else round(
        rng.uniform(lo, hi), d)
    return dict(
        id=(rng.choice(IDS) if not simple and rng.random() < .15 else
            "src_%d") % i, name=name, region=rng.choice(REGIONS),
        poly=poly_of(rng, cx, cy),
        gr_type=rng.choice(["Mw", "ML"]),
        a=num(rng, 0.0 if default else val(0, 7)),
        b=num(rng, 0.0 if default else val(.3, 2)),
        mmin=num(rng, 0.0 if default else val(3, 5, 1)),
        mmax=num(rng, 0.0 if default else val(5.5, 8, 3)),
        strike=num(rng, val(0, 360, 1)), dip=num(rng, val(0, 90, 1)),
        rake=num(rng, val(-180, 180, 1)),
        mag_type=rng.choice(["Mw", "ML"]),
        mags=[num(rng, round(5 + .5 * j, 1)) for j in range(k)],
        depths=[num(rng, round(rng.uniform(0, 30000), 1)) for j in range(k)],
        hypo=num(rng, round(rng.uniform(0, 30000), 2)),
        sep=rng.choice([" ", " ", "\n          ", "  "]))


def gen_zones(rng, n, simple=False):
    zones = []
    for i in range(n):
        z = gen_zone(rng, i, simple)
        if zones and rng.random() < .15:
            z["poly"] = [list(p) for p in rng.choice(zones)["poly"]]  # overlap
        elif zones and rng.random() < .1:
            z["poly"] = lookalike(rng, rng.choice(zones)["poly"])
        if rng.random() < .04:
            # a vertex given twice
            k = rng.randrange(len(z["poly"]))
            z["poly"].insert(k, list(z["poly"][k]))
        if zones and rng.random() < .07:
            z["name"] = rng.choice(zones)["name"]
        zones.append(z)
    return zones


def lookalike(rng, poly):
    """Another ring with the same extent and number of vertices."""
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    s = rng.random()
    if len(poly) == 4 and s < .6:
        xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
        return [[x0, ym], [xm, y1], [x1, ym], [xm, y0]]
    fx, fy = rng.choice([(1, 0), (0, 1), (1, 1)])
    return [[x0 + x1 - p[0] if fx else p[0], y0 + y1 - p[1] if fy else p[1]]
            for p in poly]


def shifted(rng, poly):
    """The ring moved a little, or not at all."""
    dx, dy = rng.choice([(0, 0), (.25, 0), (-.5, .125), (0, -.75)])
    return [[p[0] + dx, p[1] + dy] for p in poly]


def zone_xml(z):
    pos = z.get("sep", " ").join("%r %r" % (p[0], p[1]) for p in z["poly"])
    return """    <areaSource gml:id=%s>
      <gml:name>%s</gml:name>
      <tectonicRegion>%s</tectonicRegion>
      <areaBoundary>
        <gml:Polygon>
          <gml:exterior>
            <gml:LinearRing srsName="urn:ogc:def:crs:EPSG::4326">
              <gml:posList>%s</gml:posList>
            </gml:LinearRing>
          </gml:exterior>
        </gml:Polygon>
      </areaBoundary>
      <ruptureRateModel>
        <truncatedGutenbergRichter type="%s">
          <aValueCumulative>%s</aValueCumulative>
          <bValue>%s</bValue>
          <minMagnitude>%s</minMagnitude>
          <maxMagnitude>%s</maxMagnitude>
        </truncatedGutenbergRichter>
        <strike>%s</strike><dip>%s</dip><rake>%s</rake>
      </ruptureRateModel>
      <ruptureDepthDistribution>
        <magnitude type="%s">%s</magnitude>
        <depth>%s</depth>
      </ruptureDepthDistribution>
      <hypocentralDepth>%s</hypocentralDepth>
    </areaSource>
""" % (quoteattr(z["id"]), escape(z["name"]), escape(z["region"]), pos,
       z["gr_type"], z["a"], z["b"], z["mmin"], z["mmax"], z["strike"], z["dip"],
       z["rake"], z["mag_type"], " ".join(z["mags"]), " ".join(z["depths"]),
       z["hypo"])


def model_xml(zones, doc=None):
    doc = doc or {}
    comment = doc.get("comment")
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<nrml xmlns="http://openquake.org/xmlns/nrml/0.3" '
            'xmlns:gml="http://www.opengis.net/gml" gml:id="%s">\n'
            '  <sourceModel gml:id="%s">\n    <config/>\n%s%s  </sourceModel>\n'
            '</nrml>\n' % (
                doc.get("nrml_id", "n1"), doc.get("sm_id", "sm1"),
                "    <!-- %s -->\n" % comment if comment else "",
                "".join(zone_xml(z) for z in zones))).encode("utf-8")


def gen_doc(rng):
    return dict(nrml_id=rng.choice(["n1", "nrml_7", "doc-x"]),
                sm_id=rng.choice(["sm1", "model.2", "SM"]),
                comment=rng.choice([None, None, "made up", "é"]))


# -------------------------------------------------------------- catalogues

def _near_edge(x, y, poly):
    """Too close to an edge for arithmetic that is not exact to tell the side."""
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i - 1], poly[i]
        d2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
        if d2 == 0:
            continue
        cross = abs((x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)) / d2 ** .5
        if cross < 1e-9:
            return True
    return False


def edge_point(rng, z):
    """A point on the boundary of a zone (a vertex, or on an edge along a
    parallel or meridian), or very close to an edge."""
    i = rng.randrange(len(z["poly"]))
    (x1, y1), (x2, y2) = z["poly"][i - 1], z["poly"][i]
    t = rng.choice([.5, .25, rng.random()])
    x, y = x1 + t * (x2 - x1), y1 + t * (y2 - y1)
    if rng.random() < .5:
        if rng.random() < .3 or (x1 != x2 and y1 != y2):
            return x2, y2
        return (x1 if x1 == x2 else x), (y1 if y1 == y2 else y)
    d = math.hypot(x2 - x1, y2 - y1) or 1.
    off = rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -2.5)
    return round(x - off * (y2 - y1) / d, 10), round(y + off * (x2 - x1) / d, 10)


def point(rng, zones, where=None, digits=3, edges=.04):
    """(lon, lat) near a zone, on its boundary, or anywhere; never so close to
    an edge that exact arithmetic is needed to tell the side."""
    while True:
        if zones and rng.random() < .9:
            z = where or rng.choice(zones)
            if rng.random() < edges:
                x, y = edge_point(rng, z)
                if any([x, y] in q["poly"] for q in zones) or not any(
                        _near_edge(x, y, q["poly"]) for q in zones):
                    return x, y
                flat = [q for q in zones if _near_edge(x, y, q["poly"])]
                if all(_on_flat(x, y, q["poly"]) for q in flat):
                    return x, y
                continue
            xs = [p[0] for p in z["poly"]]
            ys = [p[1] for p in z["poly"]]
            m = 0.3 if rng.random() < .3 else -0.05
            x = rng.uniform(min(xs) - m, max(xs) + m)
            y = rng.uniform(min(ys) - m, max(ys) + m)
        else:
            x, y = rng.uniform(-179, 179), rng.uniform(-89, 89)
        x, y = round(x, digits), round(y, digits)
        if not any(_near_edge(x, y, z["poly"]) for z in zones):
            return x, y


def _on_flat(x, y, poly):
    """Exactly on an edge along a parallel or meridian."""
    for i in range(len(poly)):
        (x1, y1), (x2, y2) = poly[i - 1], poly[i]
        if x == x1 == x2 and min(y1, y2) <= y <= max(y1, y2) or \
                y == y1 == y2 and min(x1, x2) <= x <= max(x1, x2):
            return True
    return False


def magnitude(rng, lo=3.0, b=1.0, digits=2):
    return round(min(8.4, lo + rng.expovariate(2.3 * b)), digits)


def day(rng, year, month):
    last = 31 if month in (1, 3, 5, 7, 8, 10, 12) else 30
    if month == 2:
        last = 29 if year % 4 == 0 and (year % 100 or year % 400 == 0) else 28
    return rng.randint(1, last)


def gen_rows(rng, n, zones, span=None, sigma=None, populated=None, ncluster=.35,
             rich=True, lo=None):
    """n valid rows. sigma: None mixed, 0 always zero."""
    span = span or rng.choice([(1900, 2008), (1964, 2004), (1990, 2009),
                               (2000, 2005), (1700, 2000), (-200, 1990)])
    lo = lo if lo is not None else rng.choice([3.0, 3.5, 4.0, 4.5])
    b = rng.choice([.7, 1.0, 1.3])
    populated = zones if populated is None else populated
    rows = []
    last = None
    digits = rng.choice([3, 3, 3, 1, 6, 13])
    mdigits = rng.choice([2, 2, 2, 1, 4])
    twins = rng.choice([0, 0, 0, .1, .4])
    eid = rng.choice([1, 1, 1000])
    for i in range(n):
        if rows and rng.random() < twins:
            # the same moment, reported by somebody else, elsewhere
            x, la = point(rng, populated or zones, digits=digits)
            t = rows[-1]
            ev = (int(t[3]), int(t[4]), int(t[5]), x, la,
                  magnitude(rng, lo, b, mdigits))
            r = row(rng, eid, ev, sigma, rich)
            r[6:10] = t[6:10]
            rows.append(r)
            eid += 1
            continue
        if last and rng.random() < ncluster:
            y, mo, d, x, la, m = last
            d2 = d + rng.randint(-3, 6)
            if not 1 <= d2 <= 28:
                d2 = d
            while True:
                x2 = round(x + rng.uniform(-.08, .08), digits)
                la2 = round(la + rng.uniform(-.08, .08), digits)
                if abs(la2) < 89.9 and abs(x2) < 179.9 and not any(
                        _near_edge(x2, la2, z["poly"]) for z in zones):
                    break
            ev = (y, mo, d2, x2, la2, round(max(lo, m - rng.uniform(-.1, 1.5)), mdigits))
        else:
            x, la = point(rng, populated or zones, digits=digits)
            # denser in recent years, as real catalogues are
            u = max(rng.random(), rng.random()) if rng.random() < .7 else rng.random()
            y = int(span[0] + u * (span[1] - span[0]))
            mo = rng.randint(1, 12)
            ev = (y, mo, day(rng, y, mo), x, la, magnitude(rng, lo, b, mdigits))
            last = ev
        rows.append(row(rng, eid, ev, sigma, rich))
        eid += rng.choice([1, 1, 1, 7])
    if n and rng.random() < .5:
        rows.sort(key=lambda r: (int(r[3]), int(r[4]), int(r[5])))
    if rows and rng.random() < .15:
        dup = list(rng.choice(rows))
        rows.append(dup)
    return rows


def row(rng, eid, ev, sigma, rich):
    y, mo, d, x, la, m = ev
    opt = lambda v, p=.5: (v if rng.random() < p else
                           rng.choice(["", "   ", " "]))
    f = lambda lo, hi, n=2: repr(round(rng.uniform(lo, hi), n))
    if sigma == 0:
        sg = rng.choice(["0", "0.0", "", "  "])
    else:
        sg = rng.choice(["", f(0, .4, 3), f(0, .4, 3), "0.0", "0.1"])
    semi = sorted([rng.uniform(.1, 20), rng.uniform(.1, 20)], reverse=True)
    if rng.random() < .2:
        semi.reverse()
    r = dict(
        eventID=str(eid), Agency=rng.choice(AGENCIES) if rich else "AAA",
        Identifier=str(rng.randint(1, 10 ** rng.choice([3, 9, 14]))),
        year=str(y), month=("%02d" if rng.random() < .5 else "%d") % mo,
        day=("%02d" if rng.random() < .5 else "%d") % d,
        hour=str(rng.randint(0, 23)), minute=str(rng.randint(0, 59)),
        second=opt(rng.choice([f(0, 59), "0.0", "13", "59", "60.0"]), .8),
        timeError=opt(f(-1, 3)), longitude=repr(x), latitude=repr(la),
        SemiMajor90=opt(repr(round(semi[0], 2))),
        SemiMinor90=opt(repr(round(semi[1], 2))),
        ErrorStrike=opt(rng.choice(["298", "0", "360", f(0, 360, 0), "361"])),
        depth=f(.1, 60, 1), depthError=opt(rng.choice([f(0, 9, 1), "-1"])),
        Mw=repr(m), sigmaMw=sg,
        Ms=opt(f(3, 7, 1), .3), sigmaMs=opt(rng.choice([f(0, 1), "-.2"]), .3),
        mb=opt(f(3, 7, 1), .3), sigmamb=opt(f(0, 1), .3),
        ML=opt(f(3, 7, 1), .3), sigmaML=opt(f(0, 1), .3))
    return [r[k] for k in FIELDS]


def quote(v):
    if any(c in v for c in ',"\n\r'):
        return '"' + v.replace('"', '""') + '"'
    return v


def csv_bytes(rows, eol="\n", final=True, header=None):
    lines = [header if header is not None else HEADER]
    lines += [",".join(quote(v) for v in r) for r in rows]
    return (eol.join(lines) + (eol if final else "")).encode("utf-8")


# ----------------------------------------------------------- configurations

def gen_config(rng, pre=None, proc=None, outputs=True, apply=None,
               algos=None, mmax=None, model=True):
    """Configuration dictionary with every section the tool may look at."""
    if pre is None:
        pre = rng.choice([[], ["GardnerKnopoff"], ["Afteran"], ["Stepp"],
                          ["GardnerKnopoff", "Stepp"], ["Afteran", "Stepp"],
                          ["GardnerKnopoff", "Stepp"], ["GardnerKnopoff"]])
    if proc is None:
        proc = rng.choice([["Recurrence"], ["Recurrence", "MaximumMagnitude"],
                           ["MaximumMagnitude"], ["Recurrence"],
                           ["Recurrence", "MaximumMagnitude"],
                           ["MaximumMagnitude", "Recurrence"], []])
    if apply is None:
        apply = rng.random() < .9
    store = outputs and (rng.random() < .8)
    return {
        "eq_catalog_file": "cat.csv",
        "source_model_file": "src.xml" if model else None,
        "pprocessing_result_file": "out/pre.csv" if pre and store else None,
        "completeness_table_file": "out/table.csv" if pre and store else None,
        "result_file": "out/result.xml",
        "apply_processing_jobs": bool(apply),
        "preprocessing_jobs": list(pre) or None,
        "processing_jobs": list(proc) or None,
        "GardnerKnopoff": {
            "time_dist_windows": rng.choice(["GardnerKnopoff", "Uhrhammer",
                                             "Gruenthal"]),
            "foreshock_time_window": rng.choice([0, 0.5, 1.0, 0.5, 0, .25, 1])},
        "Afteran": {
            "time_dist_windows": rng.choice(["GardnerKnopoff", "Uhrhammer",
                                             "Gruenthal"]),
            "time_window": rng.choice([60.0, 20.0, 365.0, 60])},
        "Stepp": {
            "time_window": rng.choice([5, 1, 2, 10, 5, 1, 2, 10, .5, 2.5]),
            "magnitude_windows": rng.choice([.5, .2, .3, .5, .2, .3, .5, .2, 1,
                                             .1, .05]),
            "sensitivity": rng.choice([.2, .1, .05, .2, .1, 1]),
            "increment_lock": rng.choice([True, True, False])},
        "Recurrence": {
            "magnitude_window": rng.choice([.5, .2, .3, .4, .5, .2, .1, 1, .5,
                                            .2, .3, .01]),
            "recurrence_algorithm": algos or rng.choice(["Weichert", "MLE"]),
            "reference_magnitude": rng.choice([4.0, 3.5, 5.0, 0.0, 1.1, 4, -1]),
            "time_window": rng.choice([1.0, .3, 5.0, 10.0, 1])},
        "MaximumMagnitude": {
            "maxim_mag_algorithm": mmax or rng.choice(["Kijko_Npg",
                                                       "Cumulative_Moment"]),
            "iteration_tolerance": rng.choice([1e-2, 1e-3]),
            "maximum_iterations": rng.choice([3, 10, 20]),
            "neq": rng.choice([5, 10, 100]),
            "number_samples": rng.choice([5, 11, 15]),
            "number_bootstraps": rng.choice([2, 5, 10, 2, 5, 10, 1])},
    }


FILE_KEYS = ["eq_catalog_file", "source_model_file", "pprocessing_result_file",
             "completeness_table_file", "result_file"]


def gen_layout(rng, home=False):
    """(working directory, style of names) of the runs of a case. The files are
    always at the same places; what differs is where the tool is started and
    how the configuration spells their names."""
    s = rng.random()
    if s < .75:
        return None
    if home or s < .82:
        return [".", rng.choice(["./", "..", "//"])]
    return [rng.choice(["out", "out", "out", "work/dir"]),
            rng.choice(["", "", "./", ".."])]


def spell(name, layout):
    """The name of a file as a process with this layout writes it."""
    if not name or not layout:
        return name
    cwd, style = layout
    rel = posixpath.relpath(name, cwd)
    if style == "./" and not rel.startswith("../"):
        return "./" + rel
    if style == ".." and "/" in rel and not rel.startswith("../"):
        d = posixpath.dirname(rel)
        return "%s/../%s" % (d, rel)
    if style == "//":
        return rel.replace("/", "//")
    return rel


def config_bytes(cfg, layout=None):
    """YAML as a user writes it: top-level keys, flow mappings, block lists."""
    out = ["# generated\n"]
    if layout:
        cfg = dict(cfg)
        for k in FILE_KEYS:
            if isinstance(cfg.get(k), str):
                cfg[k] = spell(cfg[k], layout)
    # spellings of nothing, truth values and lists; a function of values that
    # stay when a scenario is shrunk
    h = zlib.crc32(repr(sorted((k, v) for k, v in cfg.items()
                               if isinstance(v, dict))).encode())
    for k, v in cfg.items():
        if v is None:
            if k.endswith("_jobs"):
                v = ["", " []", " ~", "", " null"][h % 5]
            else:
                v = ["", " ''", " ~", "", ' ""'][h % 5]
            out.append("%s:%s\n" % (k, v))
        elif isinstance(v, bool):
            yes, no = [("yes", "no"), ("True", "False"), ("true", "false"),
                       ("on", "off")][h // 5 % 4]
            out.append("%s: %s\n" % (k, yes if v else no))
        elif isinstance(v, list):
            if h // 20 % 4 == 1:
                out.append("%s: [%s]\n" % (k, ", ".join(v)))
            elif h // 20 % 4 == 2:
                out.append("%s:\n" % k + "".join("    - '%s'\n" % j for j in v))
            else:
                out.append("%s:\n" % k + "".join("- %s\n" % j for j in v))
        elif isinstance(v, dict):
            out.append("%s: {\n" % k + ",\n".join(
                "  %s: %s" % (a, yaml_scalar(b)) for a, b in v.items()) + "\n}\n")
        else:
            out.append("%s: %s\n" % (k, yaml_scalar(v)))
    return "".join(out).encode("utf-8")


def yaml_scalar(v):
    if v is None:
        return ""
    if isinstance(v, bool):
        return "True" if v else "False"
    if isinstance(v, float):
        s = repr(v)
        if "e" in s and "." not in s:
            s = s.replace("e", ".0e")
        return s
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=False) if any(
            c in v for c in ":#{}[],&*'\"%@`") or not v else v
    return str(v)


def gen_table(rng, rows):
    """A completeness table as a user writes it, for a catalogue."""
    ys = sorted(int(r[3]) for r in rows) or [1990]
    ms = sorted(float(r[17]) for r in rows) or [3.0]
    k = rng.choice([1, 1, 2, 3, 5])
    out = []
    y, m = ys[-1] - rng.randint(0, 5), round(ms[0] - .1, 1)
    for _ in range(k):
        out.append([float(y), m])
        y -= rng.randint(0, max(1, (ys[-1] - ys[0]) // k))
        m = round(m + rng.choice([.2, .5, 1.]), 1)
    if rng.random() < .2:
        rng.shuffle(out)
    fmt = rng.choice(["%10.5f,%10.5f", "%g,%g", " %d , %.2f", "%.1f,%.1f"])
    eol = rng.choice(["\n", "\n", "\r\n"])
    return rng.choice(["", "", "", "# year,magnitude" + eol]) + eol.join(
        fmt % tuple(r) for r in out) + rng.choice([eol, ""])


def gen_case(rng, n=None, nz=None, **kw):
    """A complete workload: rows, zones, doc, config; with probability 'table'
    a run without preprocessing reads its completeness table from a file."""
    nz = nz if nz is not None else rng.choice([1, 1, 2, 2, 3, 4])
    n = n if n is not None else rng.choice([3, 8, 15, 25, 40, 60])
    if rng.random() < .01:
        # the same code, beyond every small buffer and batch
        if rng.random() < .6:
            n = max(n, rng.choice([100, 128, 200, 300]))
        else:
            nz = max(nz, rng.choice([8, 12, 16]))
    simple = rng.random() < .5
    zones = gen_zones(rng, nz, simple)
    sigma = kw.pop("sigma", 0 if rng.random() < .5 else None)
    span = kw.pop("span", None)
    table = kw.pop("table", 0)
    rows = gen_rows(rng, n, zones, sigma=sigma, span=span)
    cfg = gen_config(rng, **kw)
    case = dict(rows=rows, zones=zones, doc=gen_doc(rng), config=cfg,
                layout=gen_layout(rng), argv=gen_argv(rng), eol=rng.choice(["\n", "\n", "\r\n"]))
    if not cfg["preprocessing_jobs"] and rng.random() < table:
        cfg["completeness_table_file"] = "in-table.csv"
        case["table"] = gen_table(rng, rows)
    return case


def gen_argv(rng):
    return rng.choice([0, 0, 0, rng.randrange(24)])


def same_paths(rng, other, case):
    """Makes another case use the files, and the place, of a case."""
    cfg = other["config"]
    for k in FILE_KEYS:
        cfg[k] = case["config"][k]
    if not cfg["preprocessing_jobs"] and cfg["completeness_table_file"]:
        if table_of(case):
            other["table"] = gen_table(rng, other["rows"])
        else:
            cfg["preprocessing_jobs"] = ["GardnerKnopoff"]
    other["layout"] = case.get("layout")
    return other


def table_of(case):
    """Name and content of the completeness table a case only reads."""
    cfg = case["config"]
    if case.get("table") is None or cfg["preprocessing_jobs"] or \
            not cfg["completeness_table_file"]:
        return None
    return cfg["completeness_table_file"], case["table"].encode()


def files_of(case):
    """The input files of a case."""
    cfg = case["config"]
    files = {"cfg.yml": config_bytes(cfg, case.get("layout")),
             "cat.csv": csv_bytes(case["rows"], case.get("eol", "\n"))}
    if cfg.get("source_model_file"):
        files[cfg["source_model_file"]] = model_xml(case["zones"], case["doc"])
    table = table_of(case)
    if table:
        files[table[0]] = table[1]
    return files


def outputs_of(cfg):
    out = [cfg["result_file"]]
    if cfg["preprocessing_jobs"] and cfg["pprocessing_result_file"]:
        out += [cfg["pprocessing_result_file"], cfg["completeness_table_file"]]
    return [f for f in out if f]


def gen_io(rng, benign=True):
    """Buffer sizes, short transfers, latency: legal behaviour of any system."""
    io = {"seed": rng.randrange(1 << 30), "latency": rng.choice([0, .001, .01, 5.])}
    if rng.random() < .5:
        io["bufsize"] = rng.choice([16, 61, 512, 4096, 65536])
    if rng.random() < .4:
        io["text_chunk"] = rng.choice([16, 100, 1000])
    if benign and rng.random() < .5:
        io["read_max"] = rng.choice([1, 7, 40, 300])
    if benign and rng.random() < .5:
        io["write_max"] = rng.choice([1, 7, 40, 300])
    return io
