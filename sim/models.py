"""Reference models: what the tool should do, without files, clocks or state.

Nothing in this module imports the tool.  The numeric part is a frozen,
simplified port of the published algorithms as the tool implements them; it is
the oracle for *wiring* (which events, which table, which zone), compared with
a tolerance where arithmetic order may differ.
"""

import csv
import io
import math
import os
import re
import xml.etree.ElementTree as ET
from fractions import Fraction

import numpy as np
from scipy.stats.mstats import mquantiles

FIELDS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour',
          'minute', 'second', 'timeError', 'longitude', 'latitude',
          'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError',
          'Mw', 'sigmaMw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
HEADER = ",".join(FIELDS)
INT_FIELDS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INT_FIELDS + ['longitude', 'latitude', 'depth', 'Mw']


# -------------------------------------------------------------- catalogue

class Bad(object):
    """A row that must be refused: the offending fields (any may be named)."""

    def __init__(self, fields, line):
        self.fields, self.line = fields, line


def convert_row(values, years):
    """(entry, bad fields) of one row; years = (lowest, highest) clock year
    while the catalogue is read.  Third result: acceptance depends on which
    of these years is the current one."""
    row = {}
    bad = set()
    for i, name in enumerate(FIELDS):
        v = values[i] if i < len(values) else None
        if name == 'Agency':
            row[name] = v
            continue
        try:
            row[name] = int(v) if name in INT_FIELDS else float(v)
        except (ValueError, TypeError):
            row[name] = ''
            if name in COMPULSORY:
                bad.add(name)
    if len(values) > len(FIELDS):
        bad.add(None)
    if bad:
        return row, bad, False

    def check(name, ok):
        if not ok:
            bad.add(name)
    maybe = False
    check('eventID', row['eventID'] > 0)
    check('Identifier', row['Identifier'] > 0)
    check('year', -10000 <= row['year'] <= years[1])
    if years[0] < row['year'] <= years[1]:
        maybe = True
    check('month', 1 <= row['month'] <= 12)
    check('day', 1 <= row['day'] <= (29 if row['month'] == 2 else 31))
    check('hour', 0 <= row['hour'] <= 23)
    check('minute', 0 <= row['minute'] <= 59)
    check('longitude', -180 <= row['longitude'] <= 180)
    check('latitude', -90 <= row['latitude'] <= 90)
    check('depth', row['depth'] > 0)
    if row['second'] == '' or not 0 <= row['second'] <= 59:
        row['second'] = ''
    for name in ('SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMs',
                 'sigmamb', 'sigmaML'):
        if row[name] != '' and row[name] < 0:
            row[name] = ''
    s, a, b = row['ErrorStrike'], row['SemiMajor90'], row['SemiMinor90']
    if s == '' or a == '' or b == '' or not 0 <= s <= 360 or not b <= a:
        row['ErrorStrike'] = row['SemiMajor90'] = row['SemiMinor90'] = ''
    if row['sigmaMw'] == '' or row['sigmaMw'] < 0:
        row['sigmaMw'] = 0.0
    return row, bad, maybe


def read_catalogue(data, years, field_limit=131072):
    """(kind, entries, bad): kind is 'header', 'ok', 'bad', 'decode' or 'csv'.

    entries are those of the valid rows before the first bad one; entries
    marked maybe are reported in the fourth result (set of indexes)."""
    try:
        text = data.decode("utf-8")
        broken = None
    except UnicodeDecodeError as e:
        text = data[:e.start].decode("utf-8")
        broken = 'decode'
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    head, _, body = text.partition("\n")
    if [c.strip() for c in head.split(",")] != FIELDS:
        if broken and "\n" not in text:
            return 'decode', [], None, set()
        return 'header', [], None, set()
    entries, maybe = [], set()
    line = 1
    plain = '"' not in text and "\n\n" not in text
    old_limit = csv.field_size_limit(field_limit)
    try:
        for values in csv.reader(io.StringIO(body, newline="\n")):
            if not values:
                continue
            line += 1
            entry, bad, unsure = convert_row(values, years)
            if bad:
                if broken and not body.endswith("\n"):
                    pass        # may be the row that could not be decoded
                return 'bad', entries, Bad(bad, line if plain else None), maybe
            if unsure:
                maybe.add(len(entries))
            entries.append(entry)
    except csv.Error:
        return 'csv', entries, None, maybe
    finally:
        csv.field_size_limit(old_limit)
    return (broken or 'ok'), entries, None, maybe


def same_value(a, b):
    if type(a) is not type(b):
        # plain Python numbers of the same kind only
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def same_entry(a, b):
    return set(a) == set(b) and all(same_value(a[k], b[k]) for k in b)


def diff_entry(a, b):
    return sorted(str(k) for k in set(a) | set(b)
                  if not (k in a and k in b and same_value(a[k], b[k])))


# ----------------------------------------------------------- source model

NRML = "{http://openquake.org/xmlns/nrml/0.3}"
GML = "{http://www.opengis.net/gml}"
_SCHEMA = []


def schema():
    if not _SCHEMA:
        from lxml import etree
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                            "schema", "nrml.xsd")
        _SCHEMA.append(etree.XMLSchema(etree.parse(path)))
    return _SCHEMA[0]


REPEATED_ID = "repeated id"


def document_error(data):
    """None if the bytes are a well-formed, schema-valid document."""
    from lxml import etree
    try:
        doc = etree.fromstring(data)
    except etree.XMLSyntaxError as e:
        return "not well-formed: %s" % e
    s = schema()
    if not s.validate(doc):
        for e in s.error_log:
            m = re.search(r": '([^']*)' is not a valid value of the atomic "
                          r"type 'xs:ID'", e.message)
            if not m or not re.match(r"[^\W\d][\w.-]*$", m.group(1)):
                return "invalid: %s" % e
        return REPEATED_ID
    return None


def area_source(root, sm, a):
    ring = a.find(NRML + "areaBoundary").find(".//" + GML + "LinearRing")
    pos = [float(v) for v in ring.find(GML + "posList").text.split()]
    rr = a.find(NRML + "ruptureRateModel")
    gr = rr.find(NRML + "truncatedGutenbergRichter")
    dd = a.find(NRML + "ruptureDepthDistribution")

    def num(e, n):
        return float(e.find(NRML + n).text)
    return dict(
        nrml_id=root.get(GML + "id"), sm_id=sm.get(GML + "id"),
        id=a.get(GML + "id"), name=a.find(GML + "name").text,
        region=a.find(NRML + "tectonicRegion").text,
        srs=ring.get("srsName"),
        pos=list(zip(pos[::2], pos[1::2])),
        gr_type=gr.get("type"), a=num(gr, "aValueCumulative"),
        b=num(gr, "bValue"), mmin=num(gr, "minMagnitude"),
        mmax=num(gr, "maxMagnitude"), strike=num(rr, "strike"),
        dip=num(rr, "dip"), rake=num(rr, "rake"),
        mag_type=dd.find(NRML + "magnitude").get("type"),
        mags=[float(v) for v in dd.find(NRML + "magnitude").text.split()],
        depths=[float(v) for v in dd.find(NRML + "depth").text.split()],
        hypo=num(a, "hypocentralDepth"))


def read_sources(data):
    """Area sources of a (valid) document as plain dictionaries."""
    root = ET.fromstring(data)
    out = []
    for sm in root.iter(NRML + "sourceModel"):
        for a in sm.findall(NRML + "areaSource"):
            out.append(area_source(root, sm, a))
    return out


def partial_sources(data):
    """Area sources completed before the first well-formedness error; None for
    one that cannot be read."""
    p = ET.XMLPullParser(["start", "end"])
    out, stack = [], []
    try:
        for i in range(0, len(data), 256):
            p.feed(data[i:i + 256])
            for ev, e in p.read_events():
                if ev == "start":
                    stack.append(e)
                    continue
                stack.pop()
                if e.tag == NRML + "areaSource" and len(stack) >= 2:
                    try:
                        out.append(area_source(stack[-2], stack[-1], e))
                    except Exception:
                        out.append(None)
    except (ET.ParseError, LookupError, ValueError):
        pass
    return out


def recovered_sources(data):
    """Area sources of a document read past its errors."""
    from lxml import etree
    root = etree.fromstring(data, etree.XMLParser(recover=True,
                                                  remove_comments=True,
                                                  remove_pis=True))
    if root is None:
        return []
    out = []
    for a in root.iter(NRML + "areaSource"):
        try:
            out.append(area_source(a.getparent().getparent(), a.getparent(), a))
        except Exception:
            out.append(None)
    return out


def source_dict(s):
    """The same dictionary from one of the tool's source objects."""
    rr = s.rupture_rate_model
    gr = rr.truncated_gutenberg_richter
    return dict(
        nrml_id=s.nrml_id, sm_id=s.source_model_id, id=s.area_source_id,
        name=s.name, region=s.tectonic_region, srs=s.area_boundary.srs_name,
        pos=[(p.lon, p.lat) for p in s.area_boundary.pos_list],
        gr_type=gr.type_tgr, a=gr.a_value, b=gr.b_value, mmin=gr.min_magnitude,
        mmax=gr.max_magnitude, strike=rr.strike, dip=rr.dip, rake=rr.rake,
        mag_type=s.rupture_depth_dist.magnitude.type_mag,
        mags=list(s.rupture_depth_dist.magnitude.values),
        depths=list(s.rupture_depth_dist.depth), hypo=s.hypocentral_depth)


def diff_source(a, b, ignore=()):
    return sorted(k for k in set(a) | set(b) if k not in ignore and
                  not _eq(a.get(k), b.get(k)))


def _eq(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return repr(float(x)) == repr(float(y))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(_eq(a, b) for a, b in zip(x, y))
    return x == y and isinstance(x, str) == isinstance(y, str)


# --------------------------------------------------------------- geometry

def inside(lon, lat, poly):
    """Whether a point lies strictly inside a ring; ray casting, with exact
    arithmetic close to an edge. On the boundary is not inside."""
    n = len(poly)
    res = False
    j = n - 1
    for i in range(n):
        (xi, yi), (xj, yj) = poly[i], poly[j]
        j = i
        if (yi > lat) == (yj > lat) and yi != lat and yj != lat:
            continue
        cross = (xj - xi) * (lat - yi) - (lon - xi) * (yj - yi)
        if abs(cross) < 1e-7:
            f = [Fraction(v) for v in (xi, yi, xj, yj, lon, lat)]
            cross = (f[2] - f[0]) * (f[5] - f[1]) - (f[4] - f[0]) * (f[3] - f[1])
            if cross == 0 and min(xi, xj) <= lon <= max(xi, xj) and \
                    min(yi, yj) <= lat <= max(yi, yj):
                return False
        if (yi > lat) != (yj > lat) and (cross > 0) == (yj > yi):
            res = not res
    return res


# ------------------------------------------------------------ declustering

def _decimal(year, month, day):
    marker = [0., 31., 59., 90., 120., 151., 181., 212., 243., 273., 304., 334.]
    return np.array([y + (marker[int(m) - 1] + d - 1.) / 365.
                     for y, m, d in zip(year, month, day)])


def _windows(opt, m):
    if opt == 'GardnerKnopoff':
        space = np.power(10.0, 0.1238 * m + 0.983)
        t = np.power(10.0, 0.032 * m + 2.7389) / 365.
        lo = m < 6.5
        t[lo] = np.power(10.0, 0.5409 * m[lo] - 0.547) / 365.
    elif opt == 'Gruenthal':
        space = np.exp(1.77 + np.sqrt(0.037 + 1.02 * m))
        t = np.abs(np.exp(-3.95 + np.sqrt(0.62 + 17.32 * m)) / 365.)
        hi = m >= 6.5
        t[hi] = np.power(10, 2.8 + 0.024 * m[hi]) / 365.
    else:
        space = np.exp(-1.024 + 0.804 * m)
        t = np.exp(-2.87 + 1.235 * m / 365.)
    return space, t


def _dist(lon1, lat1, lon2, lat2, r=6371.227):
    c = np.pi / 180.
    lon1, lat1, lon2, lat2 = c * lon1, c * lat1, c * lon2, c * lat2
    a = np.sin((lat1 - lat2) / 2.) ** 2. + np.cos(lat1) * np.cos(lat2) * \
        np.sin((lon1 - lon2) / 2.) ** 2.
    return 2. * r * np.arctan2(np.sqrt(a), np.sqrt(1 - a))


def gardner_knopoff(mat, opt, prop):
    n = len(mat)
    order = np.flipud(np.argsort(mat[:, 5], kind='heapsort'))
    s = mat[order]
    space, tw = _windows(opt, s[:, 5].copy())
    dec = _decimal(s[:, 0], s[:, 1], s[:, 2])
    vcl = np.zeros(n, dtype=int)
    flag = np.zeros(n, dtype=int)
    k = 0
    for i in range(n - 1):
        if vcl[i]:
            continue
        dt = dec - dec[i]
        sel = (dt >= -tw[i] * prop) & (dt <= tw[i])
        sel = sel & (_dist(s[:, 3], s[:, 4], s[i, 3], s[i, 4]) <= space[i])
        others = sel.copy()
        others[i] = False
        if others.any():
            k += 1
            vcl[sel] = k
            flag[sel] = 1
            flag[others & (dt < 0.0)] = -1
            flag[i] = 0
    back = np.argsort(order, kind='heapsort')
    return flag[back], vcl[back]


def afteran(mat, opt, days):
    window = days / 365.
    n = len(mat)
    order = np.flipud(np.argsort(mat[:, 5], kind='heapsort'))
    s = mat[order]
    space = _windows(opt, s[:, 5].copy())[0]
    dec = _decimal(s[:, 0], s[:, 1], s[:, 2])
    vcl = np.zeros(n, dtype=int)
    flag = np.zeros(n, dtype=int)
    k = 0
    for i in range(n):
        if vcl[i]:
            continue
        sel = np.nonzero((_dist(s[:, 3], s[:, 4], s[i, 3], s[i, 4]) <=
                          space[i]) & (vcl == 0))[0]
        dt = dec[sel] - dec[i]
        after = [True]
        cur = dt[0]
        for j in range(1, len(sel)):
            d = dt[j] - cur
            after.append(bool(0.0 <= d <= window))
            if after[j]:
                cur = dt[j]
        fore = [False] * len(sel)
        cur = dt[0]
        j = 1
        while j < len(sel):
            if after[j]:
                j += 2          # the tool also passes over the next one
                continue
            d = dt[j] - cur
            fore[j] = bool(-window <= d <= 0.0)
            if fore[j]:
                cur = dt[j]
            j += 1
        member = [a or f for a, f in zip(after, fore)]
        if sum(member) > 1:
            k += 1
            for j, idx in enumerate(sel):
                if member[j]:
                    vcl[idx] = k
                if j and after[j]:
                    flag[idx] = 1
                elif fore[j]:
                    flag[idx] = -1
    back = np.argsort(order, kind='heapsort')
    return flag[back], vcl[back]


# ------------------------------------------------------------ completeness

def stepp(year, mw, dm, dt, ttol, lock):
    mw = np.around(100.0 * mw) / 100.0
    lowm = np.floor(10. * np.min(mw)) / 10.
    highm = np.ceil(10. * np.max(mw)) / 10.
    if highm <= lowm:
        highm = lowm + 0.1
    mbin = np.arange(lowm, highm + dm, dm)
    end, start = np.max(year), np.min(year)
    tr = np.arange(dt, end - start + 2, dt)
    nt, nb = len(tr), len(mbin)
    rate = 1. / np.sqrt(tr)
    expect = (np.log10(rate[1:]) - np.log10(rate[:-1])) / (
        np.log10(tr[1:]) - np.log10(tr[:-1]))
    loc = 0
    rows = []
    for j in range(nb - 1):
        obs = np.zeros(nt)
        for i in range(nt):
            m = mw[year >= end - tr[i]]
            if j == nb - 2:
                obs[i] = np.sum(m >= mbin[j])
            else:
                obs[i] = np.sum((m >= mbin[j]) & (m < mbin[j + 1]))
        sig = np.sqrt(obs / tr / tr)
        sig[sig < 1E-14] = 1E-14
        grad = (np.log10(sig[1:]) - np.log10(sig[:-1])) / (
            np.log10(tr[1:]) - np.log10(tr[:-1]))
        resid = grad - expect
        jump = np.nonzero(np.abs(resid[1:] - resid[:-1]) > ttol)[0]
        # the tool ignores a jump that occurs only at position 0
        if np.any(jump):
            new = jump[-1]
        else:
            new = loc if j else 0
        if j and lock and new < loc:
            new = loc
        loc = new
        rows.append((end - tr[loc], mbin[j]))
    return np.array(rows).reshape((-1, 2))


def select(mat, table, flag):
    keep = []
    for i in range(len(mat)):
        low = any(mat[i, 0] < c[0] and mat[i, 5] < c[1] for c in table)
        keep.append(not low and flag[i] == 0)
    return keep


# -------------------------------------------------------------- recurrence

def mle(year, mag, table, dmag, ref):
    ctime, cmag = table[:, 0], table[:, 1]
    parts = []
    i = 0
    while i < len(ctime):
        same = np.abs(ctime - ctime[i]) < 1e-5
        mc = np.min(cmag[same])
        sel = (year >= ctime[i]) & (mag >= mc - 1e-5)
        i += int(np.sum(same))
        if not sel.any():
            continue
        y, m = year[sel], mag[sel]
        nyr = float(np.max(y) - np.min(y) + 1)
        hi = np.max(np.ceil(10.0 * m) / 10.0)
        lo = np.min(np.floor(10.0 * m) / 10.0)
        edges = np.arange(lo, hi + 2 * dmag, dmag)
        mid = edges[:-1] + dmag / 2.0
        obs = np.histogram(m, edges)[0]
        k = mid >= mc
        mid, obs = mid[k], obs[k]
        n = np.sum(obs)
        with np.errstate(all="ignore"):
            ave = np.sum(mid * obs) / n
            b = np.log10(np.e) / (ave - np.min(mid) + dmag / 2.)
            a = np.log10(len(m) / nyr) + b * mc
            rate = 10.0 ** (a - b * ref)
        parts.append((len(m), b, rate))
    if not parts:
        return float("nan"), float("nan")
    w = np.array([p[0] for p in parts], float)
    w = w / w.sum()
    return (float(np.sum(w * np.array([p[1] for p in parts]))),
            float(np.sum(w * np.array([p[2] for p in parts]))))


def weichert(year, mag, table, dm, dt, ref):
    nan = (float("nan"), float("nan"))
    ctime, cmag = table[:, 0], table[:, 1]
    tint = np.arange(np.min(year), np.max(year) + 1.5 * dt, dt)
    mag = np.around(mag, decimals=1)
    mint = np.arange(np.min(mag), np.max(mag) + 1.5 * dm, dm)
    full = np.histogram2d(year, mag, bins=[tint, mint])[0]
    mid = (mint[:-1] + mint[1:]) / 2.
    for c, m in zip(ctime, cmag):
        x, y = np.nonzero(tint < c)[0], np.nonzero(mint < m)[0]
        if len(x) and len(y):
            full[:x[-1] + 1, :y[-1] + 1] = 0
    obs = np.zeros(full.shape[1])
    per = np.zeros(full.shape[1])
    for i in range(full.shape[1]):
        obs[i] = np.sum(full[:, i])
        d = np.nonzero((cmag - mint[i]) < 1e-3)[0]
        per[i] = np.max(year) - ctime[d[-1] if len(d) else -1] + 1
    if len(mid) < 2:
        return nan
    beta, it = 1.5, 0
    with np.errstate(all="ignore"):
        while True:
            it += 1
            if it > 1000 or not np.isfinite(beta):
                return nan
            n = np.sum(obs)
            e = np.exp(-beta * mid)
            te = per * e
            st, s1, s2 = np.sum(te), np.sum(te * mid), np.sum(mid * te * mid)
            g = s1 / st
            h = n * (g ** 2.0 - s2 / st)
            g = g * n - np.sum(obs * mid)
            old, beta = beta, beta - g / h
            f = n * (np.sum(e) / st)
            if abs(beta - old) <= 1e-5:
                low = mid[0] - (mid[1] - mid[0]) / 2.0
                a = f if ref == 0. else f * np.exp(-beta * (ref - low))
                return float(beta / np.log(10.0)), float(a)


# ------------------------------------------------------- maximum magnitude

def _hastings(x):
    a = np.abs(x)
    y = 1.0 - 0.5 * (1. + 0.196854 * a + 0.115194 * -1 * a ** 2. +
                     0.000344 * a ** 3. + 0.019527 * a ** 4.) ** -4.
    y[x < -5.] = 0.
    y[x > 5.] = 1.
    y[x < 0.] = 1. - y[x < 0.]
    return y


def kijko(mag, neq, nsamp, tol, maxit):
    obsmax = np.max(mag)
    if len(mag) > neq:
        mag = np.sort(mag)[-neq:]
    n = float(len(mag)) if len(mag) <= neq else float(neq)
    lo = np.min(mag)
    q = mquantiles(mag, prob=[0.25, 0.75])
    h = np.round(100. * 0.9 * ((q[1] - q[0]) / 1.34) * len(mag) ** -.2) / 100.
    top, d, j = obsmax, 1e8, 0
    with np.errstate(all="ignore"):
        while d > tol:
            pts = np.log(np.hstack([
                np.exp(lo) + np.arange(0., nsamp - 1., 1.) *
                ((np.exp(top) - np.exp(lo)) / (nsamp - 1.)), np.exp(top)]))
            pmin = _hastings((np.min(pts) - mag) / h)
            pmax = _hastings((np.max(pts) - mag) / h)
            cdf = np.array([
                (np.sum(_hastings((p - mag) / h) - pmin) /
                 np.sum(pmax - pmin)) ** n for p in pts])
            val = 0.5 * cdf[0] * (pts[1] - pts[0])
            for i in range(1, nsamp - 1):
                val += 0.5 * cdf[i] * (pts[i + 1] - pts[i - 1])
            val += 0.5 * cdf[-1] * (pts[-1] - pts[-2])
            new = obsmax + val
            d = abs(new - top)
            top = new
            j += 1
            if j > maxit:
                break
    return float(top)


def cumulative_moment(year, mag):
    mo = 10. ** (9.05 + 1.5 * mag)
    years = np.arange(np.min(year), np.max(year) + 1, 1)
    rate = np.array([np.sum(mo[np.abs(year - y) < 1e-5]) for y in years])
    mean = np.sum(rate) / len(years)
    diff = np.cumsum(rate) - np.cumsum(mean * np.ones(len(years)))
    with np.errstate(all="ignore"):
        return float((2. / 3.) * (np.log10(
            np.abs(np.max(diff)) + np.abs(np.min(diff))) - 9.05))


# ------------------------------------------------------------ whole pipeline

COLS = ['year', 'month', 'day', 'longitude', 'latitude', 'Mw', 'sigmaMw']


def matrix(entries):
    return np.array([[float(e[c]) for c in COLS] for e in entries])


def pipeline(entries, jobs, cfg, table_rows=None):
    """Reference preprocessing: dict(keep, table, working, flag)."""
    mat = matrix(entries)
    flag = np.zeros(len(mat), dtype=int)
    table = np.array([[mat[:, 0].min(), mat[:, 5].min()]])
    working = mat
    vcl = []
    for job in jobs or ():
        if job == 'GardnerKnopoff':
            c = cfg['GardnerKnopoff']
            flag, vcl = gardner_knopoff(working, c['time_dist_windows'],
                                        c['foreshock_time_window'])
            working = working[flag == 0]
        elif job == 'Afteran':
            c = cfg['Afteran']
            flag, vcl = afteran(mat, c['time_dist_windows'],
                                c['time_window'])
            working = mat[flag == 0]
        elif job == 'Stepp':
            c = cfg['Stepp']
            table = stepp(working[:, 0], working[:, 5], c['magnitude_windows'],
                          c['time_window'], c['sensitivity'],
                          c['increment_lock'])
    if not jobs and table_rows is not None:
        table = np.array(table_rows, float).reshape((-1, 2))
    keep = select(mat, table, flag) if len(flag) == len(mat) else None
    return dict(mat=mat, flag=flag, table=table, working=working, keep=keep,
                clusters=len(set(int(v) for v in vcl) - set([0])))


def estimate(zone_events, table, cfg, jobs):
    """Reference parameters of one zone: {} where no calculation is possible.

    None for a value means: depends on random numbers, not modelled."""
    out = {}
    ev = zone_events
    if len(ev) == 0:
        return out
    for job in jobs or ():
        if job == 'Recurrence':
            c = cfg['Recurrence']
            if c['recurrence_algorithm'] == 'Weichert':
                b, a = weichert(ev[:, 0], ev[:, 5], table,
                                c['magnitude_window'], c['time_window'],
                                c['reference_magnitude'])
            else:
                b, a = mle(ev[:, 0], ev[:, 5], table, c['magnitude_window'],
                           c['reference_magnitude'])
            if math.isfinite(a) and math.isfinite(b):
                out.update(a=a, b=b, mmin=float(c['reference_magnitude']))
        elif job == 'MaximumMagnitude':
            c = cfg['MaximumMagnitude']
            if c['maxim_mag_algorithm'] == 'Kijko_Npg':
                v = kijko(ev[:, 5], c['neq'], c['number_samples'],
                          c['iteration_tolerance'], c['maximum_iterations'])
            elif np.all(ev[:, 6] == 0.0):
                v = cumulative_moment(ev[:, 0], ev[:, 5])
            else:
                v = None
            if v is None or math.isfinite(v):
                out['mmax'] = v
    return out


def close(a, b, rel=1e-6):
    if a is None or b is None:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return repr(float(a)) == repr(float(b))
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b)) 
