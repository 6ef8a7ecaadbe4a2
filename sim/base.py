"""What the checks share: machines, boots, fault placement, verdicts."""

import copy
import hashlib
import json
import os
import random
import shutil

from . import gen, models, proc, world
from .world import World, epoch

BENIGN = ("STALL",)


class Verdict(object):
    def __init__(self, violation=None, nontrivial=True, sig=None):
        self.violation = violation      # None or dict(cls=..., detail=...)
        self.nontrivial = nontrivial
        self.sig = sig


def bad(cls, **detail):
    return Verdict(dict(cls=cls, detail=detail))


class Env(object):
    """Per-worker environment; one scenario at a time."""

    def __init__(self, base):
        self.base = base
        self.worlds = []
        self.n = 0
        self.probes = {}

    def machine(self, keep_log=True):
        self.n += 1
        root = os.path.join(self.base, "m%d" % self.n)
        os.makedirs(root)
        w = World(root, keep_log)
        w.now = epoch(2012)
        self.worlds.append(w)
        return w

    def alias(self, w):
        """Another process' view of the same machine."""
        v = World(w.root, w.keep_log)
        v.now = w.now
        self.worlds.append(v)
        return v

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def finish(self):
        """(stats, sim seconds, digest) of the scenario; removes its disks."""
        stats, secs, h = {}, 0.0, hashlib.sha256()
        for w in self.worlds:
            for k, v in w.stats.items():
                stats[k] = stats.get(k, 0) + v
            secs += w.sim_seconds
            h.update(w.digest().encode())
            shutil.rmtree(w.root, ignore_errors=True)
            shutil.rmtree(w.tmp, ignore_errors=True)
        for k, v in self.probes.items():
            stats["probe:" + k] = stats.get("probe:" + k, 0) + v
        self.worlds = []
        self.probes = {}
        self.n = 0
        return stats, secs, h.hexdigest()


# ------------------------------------------------------------------- machines

def prepare(w, case, extra=None, mtime=None):
    for rel, data in gen.files_of(case).items():
        w.put(rel, data, mtime)
    for rel in gen.outputs_of(case["config"]):
        d = os.path.dirname(rel)
        if d:
            os.makedirs(w.path(d), exist_ok=True)
    for rel, data in (extra or {}).items():
        w.put(rel, data, mtime)


def place_of(case):
    """Keyword arguments that start main.py where the case says."""
    layout = (case or {}).get("layout")
    argv = dict(spelling=(case or {}).get("argv", 0))
    if not layout:
        return argv
    return dict(argv, cwd=layout[0], config=gen.spell("cfg.yml", layout))


def log_file(case):
    layout = case.get("layout")
    return os.path.normpath(os.path.join(layout[0], "debug.log")) \
        if layout else "debug.log"


def boot(w, scn, faults=(), io=None, case=None, **kw):
    """One run of main.py as the scenario describes it."""
    args = dict(place_of(case or scn.get("case")), detailed=scn.get("detailed", False), faults=faults,
                io=scn.get("io") if io is None else io,
                now=scn.get("now"), utc_offset=scn.get("offset", 0),
                seed=scn.get("seed", 0))
    args.update(kw)
    return proc.run_main(w, **args)


def outputs(w, cfg):
    return {rel: w.get(rel) for rel in gen.outputs_of(cfg)}


def ops(w, op, file, since=0):
    """How many operations of a kind the log of a machine shows."""
    n = 0
    for e in w.log[since:]:
        if len(e) == 4 and isinstance(e[0], int) and e[1] != "FAULT":
            if (op == "*" or e[1] == op) and world.match(file, e[2]):
                n += 1
    return n


def place(faults, w, since=0):
    """Turns the 'nth' of planned faults (any integer) into an operation that
    the log of the undisturbed run shows to exist; total count if none."""
    out = []
    for f in faults:
        f = dict(f)
        if f["op"] != "line":
            n = ops(w, f["op"], f.get("file", "*"), since)
            if n:
                f["nth"] = f["nth"] % n
        out.append(f)
    return out


def split_faults(faults, total_lines):
    """(I/O faults, trace spec) - line faults go to the tracer."""
    io, trace = [], None
    for f in faults:
        if f["op"] == "line":
            trace = dict(at=1 + int(f["frac"] * max(total_lines, 1)),
                         exc=f["kind"])
        else:
            io.append(f)
    return io, trace


def has_line(faults):
    return any(f["op"] == "line" for f in faults)


def hard(fired):
    return [f for f in fired if f["kind"] not in BENIGN]


# ---------------------------------------------------------------------- faults

def gen_io_fault(rng, cfg, detailed=False, writes=True, reads=True):
    """One I/O error somewhere on the files of a configuration."""
    ins = ["cfg.yml", cfg["eq_catalog_file"]]
    if cfg["source_model_file"]:
        ins.append(cfg["source_model_file"])
    if not cfg["preprocessing_jobs"] and cfg["completeness_table_file"]:
        ins.append(cfg["completeness_table_file"])
    outs = gen.outputs_of(cfg)
    kinds = []
    if reads:
        kinds += ["read", "read", "open", "closein"]
    if writes:
        kinds += ["write", "write", "write", "openw", "close", "close"]
    k = rng.choice(kinds)
    nth = rng.randrange(1 << 16)
    if k == "read":
        return dict(op="read", file=rng.choice(ins), nth=nth,
                    kind=rng.choice(["EIO", "ESTALE", "ENOMEM", "ETIMEDOUT"]))
    if k == "open":
        return dict(op="open", file=rng.choice(ins), nth=nth,
                    kind=rng.choice(["EIO", "EACCES", "EMFILE", "ENFILE",
                                     "ENOENT", "ENOMEM"]))
    if k == "closein":
        return dict(op="close", file=rng.choice(ins), nth=nth, kind="EIO")
    f = rng.choice(outs)
    if k == "openw":
        return dict(op="openw", file=f, nth=nth, kind=rng.choice(
            ["EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS", "EISDIR"]))
    if k == "close":
        return dict(op="close", file=f, nth=nth,
                    kind=rng.choice(["EIO", "ENOSPC", "EDQUOT"]))
    return dict(op="write", file=f, nth=nth,
                kind=rng.choice(["ENOSPC", "ENOSPC", "EDQUOT", "EIO"]),
                partial=rng.choice([0, 0, 1, 17, 200]),
                sticky=rng.random() < .6)


def gen_line_fault(rng):
    return dict(op="line", frac=rng.random() ** rng.choice([1, 1, .2]),
                kind=rng.choice(["MemoryError", "MemoryError",
                                 "KeyboardInterrupt"]))


def gen_crash(rng):
    """A crash at any operation or any line of a run."""
    s = rng.random()
    if s < .2:
        return dict(op="line", frac=rng.random(), kind="CRASH")
    if s < .55:
        return dict(op="*", nth=rng.randrange(1 << 16), kind="CRASH")
    return dict(op=rng.choice(["write", "write", "openw", "close"]),
                file=["!cfg.yml"], nth=rng.randrange(1 << 16), kind="CRASH",
                after=rng.random() < .3, partial=rng.choice([0, 0, 1, 30, 500]))


def gen_damage(rng):
    """What a power loss does to unsynchronised files."""
    return [rng.choice(["keep", "old", "cut", "cut", "zero", "lost", "junk"])
            for _ in range(6)] + [rng.random() for _ in range(6)]


def damage(w, before, plan, env=None):
    """Applies a power loss: files written since boot, not synced."""
    k = 0
    for rel in list(w.touched):
        if rel in w.synced:
            continue
        what, frac = plan[k % 6], plan[6 + k % 6]
        k += 1
        data = w.get(rel)
        if what == "keep":
            continue
        if env is not None:
            env.probe("powerloss:" + what)
        if what == "old":
            if before.get(rel) is None:
                w.delete(rel)
            else:
                w.put(rel, before[rel])
        elif what == "lost":
            if before.get(rel) is None:
                w.delete(rel)
            elif data is not None:
                w.put(rel, b"")
        elif data is not None:
            n = int(frac * len(data))
            if what == "cut":
                w.put(rel, data[:n])
            elif what == "zero":
                w.put(rel, data[:n] + b"\0" * (len(data) - n))
            elif what == "junk":
                w.put(rel, data[:n] + b"\xff\xfejunk<>" + data[n + 9:])


STALE = ["none", "none", "empty", "short", "long", "prefix", "other", "binary",
         "near", "zeroed"]


def stale_content(kind, good, seed=0):
    """Earlier content of an output path."""
    good = good or b"x"
    if kind == "none":
        return None
    if kind == "empty":
        return b""
    if kind == "short":
        return b"old\n"
    if kind == "long":
        return (b"old line %d, 1, 2, 3\n" % seed) * 60 + good * 2
    if kind == "prefix":
        return good[:max(1, len(good) * (seed % 10) // 10)]
    if kind == "near":
        # one digit differs, the size does not
        at = [i for i, c in enumerate(good) if 48 <= c <= 57]
        if not at:
            return good[::-1]
        i = at[-1 - seed * 7 % len(at)]
        return good[:i] + (b"7" if good[i:i + 1] != b"7" else b"2") + good[i + 1:]
    if kind == "zeroed":
        n = len(good) * (seed % 10) // 10
        return good[:n] + b"\0" * (len(good) - n)
    if kind == "other":
        return good.replace(b"1", b"2").replace(b"0", b"7")
    return bytes(random.Random(seed).randrange(256) for _ in range(700))


# ------------------------------------------------------------------- signature

def trace_sig(w):
    """Coarse shape of what happened: ops per file (runs collapsed), faults,
    outcomes. Used to count distinct executions."""
    out = []
    last = None
    for e in w.log:
        if isinstance(e[0], int):
            item = e[1:3] if e[1] != "FAULT" else e[1:]
        else:
            item = e if e[0] in ("EXIT", "CRASH", "CLOCKJUMP") else (e[0],)
            if e[0] == "got":
                continue
        if item != last:
            out.append(item)
            last = item
    return hashlib.sha256(repr(out).encode()).hexdigest()[:16]


def sig(*parts):
    return hashlib.sha256(json.dumps(parts, sort_keys=True, default=str)
                          .encode()).hexdigest()[:16]


# ------------------------------------------------------------------- reference

def reference(case, table_bytes=None):
    """Expected pre/table/result of a case (dict), or None if its inputs are
    not acceptable to the reference."""
    files = gen.files_of(case)
    cfg = case["config"]
    kind, entries, _, _ = models.read_catalogue(files["cat.csv"], (2012, 2012))
    if kind != "ok" or not entries:
        return None
    if cfg["source_model_file"] and \
            models.document_error(files[cfg["source_model_file"]]):
        return None
    rows = None
    if table_bytes is None and gen.table_of(case):
        table_bytes = gen.table_of(case)[1]
    if table_bytes is not None:
        rows = [[float(x) for x in line.split(b",")]
                for line in table_bytes.split(b"\n")
                if line.split(b"#")[0].strip()]
    p = models.pipeline(entries, cfg["preprocessing_jobs"], cfg, rows)
    p["entries"] = entries
    if cfg["source_model_file"]:
        p["sources"] = models.read_sources(files[cfg["source_model_file"]])
    else:
        p["sources"] = [dict(DEFAULT_SOURCE)]
    return p


# what stands in for a missing source model: one zone for the whole catalogue
DEFAULT_SOURCE = dict(
    nrml_id="MTK", sm_id="MTK", id="MTK", name="MTK", region="MTK", srs="MTK",
    pos=[(0.0, 0.0)], gr_type="MTK", a=0.0, b=0.0, mmin=0.0, mmax=0.0,
    strike=0.0, dip=90.0, rake=0.0, mag_type="MTK", mags=[6.5],
    depths=[5000.0], hypo=5000.0)


def expected_zone(p, src, cfg):
    import numpy as np
    if not cfg["apply_processing_jobs"]:
        return {}, None
    ev = [e for e in p["working"] if not cfg["source_model_file"] or
          models.inside(e[3], e[4], src["pos"])]
    ev = np.array(ev)
    return models.estimate(ev, p["table"], cfg, cfg["processing_jobs"]), ev


def check_result(p, cfg, data, rel=1e-6):
    """None or a violation dict for a result document against the reference."""
    try:
        got = models.read_sources(data)
    except Exception as e:
        return dict(cls="result-unreadable", detail=str(e)[:200])
    src = p["sources"]
    if len(got) != len(src):
        return dict(cls="zone-count", detail=[len(src), len(got)])
    for i, (a, r) in enumerate(zip(src, got)):
        d = models.diff_source(a, r, ignore=("a", "b", "mmin", "mmax"))
        if d:
            return dict(cls="frame", detail=dict(zone=i, fields=d,
                        want=[a[k] for k in d], got=[r[k] for k in d]))
        est, ev = expected_zone(p, a, cfg)
        for k in ("a", "b", "mmin", "mmax"):
            want = est.get(k, a[k])
            if k in est:
                ok = models.close(want, r[k], rel)
            else:
                ok = repr(float(want)) == repr(float(r[k]))
            if not ok:
                return dict(cls="parameter-" + k, detail=dict(
                    zone=i, want=want, got=r[k], estimated=k in est,
                    events=0 if ev is None else len(ev)))
    return None


def clone(x):
    return copy.deepcopy(x)


# --------------------------------------------------------------------- history

def gen_early_fault(rng, cfg):
    """A fault that needs no undisturbed run to be placed."""
    s = rng.random()
    if s < .25:
        return dict(op="line", line=int(10 ** rng.uniform(1, 4.6)),
                    kind=rng.choice(["CRASH", "MemoryError",
                                     "KeyboardInterrupt",
                                     "FloatingPointError"]))
    near = rng.choice([0, 0, 1, 2, 5, 20])
    if s < .6:
        f = gen_crash(rng)
        if f["op"] == "line":
            f = dict(op="*", kind="CRASH")
        f["nth"] = near if f["op"] != "*" else int(10 ** rng.uniform(0, 2.5))
        return f
    f = gen_io_fault(rng, cfg)
    f["nth"] = near
    return f


def gen_history(rng, case, most=3):
    """Earlier boots on the same machine: the same or other inputs at the same
    paths, undisturbed or faulted, in fresh processes or in the same one."""
    boots = []
    for _ in range(rng.choice([0, 1, 1, 2, most])):
        other = None
        if rng.random() < .6:
            other = gen.gen_case(rng, n=rng.choice([3, 8, 20, 30]))
            gen.same_paths(rng, other, case)
        boots.append(dict(
            case=other, io=gen.gen_io(rng), detailed=rng.random() < .2,
            year=rng.choice([2012, 2012, 2009, 2031]),
            same_process=rng.random() < .4, seed=rng.randrange(1 << 30),
            faults=[gen_early_fault(rng, case["config"])
                    for _ in range(rng.choice([0, 1, 1, 1]))],
            damage=gen_damage(rng) if rng.random() < .4 else None))
    return boots


def run_history(w, boots, case, env, extra=None):
    """Runs the boots; true if the process of the last one is still usable."""
    from .world import epoch as when
    alive = False
    for b in boots:
        prepare(w, b["case"] or case, extra)
        before = w.snapshot()
        io = [f for f in b["faults"] if f["op"] != "line"]
        tr = [dict(at=f["line"], exc=f["kind"]) for f in b["faults"]
              if f["op"] == "line"]
        out = boot(w, dict(detailed=b["detailed"], io=b["io"], seed=b["seed"]),
                   faults=io, trace=tr[0] if tr else None, now=when(b["year"]),
                   case=b["case"] or case,
                   keep_modules=alive and b["same_process"],
                   leave_modules=True)
        alive = out.status != "crash"
        env.probe("history:%s:%s" % ("other" if b["case"] else "same",
                                     out.status))
        if out.status == "crash" and b["damage"]:
            damage(w, before, b["damage"], env)
    prepare(w, case, extra)
    return alive


def stale_outputs(w, stale, good=None):
    for f, (kind, seed) in stale.items():
        # what an earlier run of the history left is the best raw material
        data = stale_content(kind, (good or {}).get(f) or w.get(f), seed)
        if data is not None:
            w.put(f, data)
