"""C16: randomness enters only the bootstrap, and a seed repeats it."""

import random

import numpy as np

from sim import base, gen, models, peer, proc
from sim.sched import Scheduler, sim_locks
from sim.world import epoch

ID = "C16"
QUICK, THOROUGH = 4000, 200000
RULE = ("one scenario = the same inputs run with different states of the "
        "random generators (seeds, draws made by other code between the lines "
        "of the tool, earlier runs in the same process, another string-hash "
        "seed in a second interpreter) and again with the same state; or the "
        "bootstrap with an explicit seed, alone, among ambient draws at "
        "seeded lines, and in threads under the seeded scheduler; non-trivial "
        "if two successful executions were compared")
MEASURE = ("distinct (mode, jobs, algorithms, zones with uncertain "
           "magnitudes, variations) tuples")
SHRINK = [("variants",), ("case", "rows"), ("case", "zones"),
          ("case", "config", "preprocessing_jobs"),
          ("case", "config", "processing_jobs"), ("events",)]
SIMPLE = [(("io",), {}), (("detailed",), False), (("case", "eol"), "\n")]
NUMBERS = []


def generate(rng):
    if rng.random() < .35:
        n = rng.choice([1, 2, 5, 20])
        return dict(
            mode=rng.choice(["seeded", "seeded", "threads"]),
            events=[[rng.randint(1900, 2010), gen.magnitude(rng, 3.5),
                     rng.choice([0.0, .1, .25])] for _ in range(n)],
            boots=rng.choice([2, 3, 10]), key=rng.choice(
                [0, 1, 7, 42, rng.randrange(1 << 31)]),
            ambient=[rng.randrange(1 << 31) for _ in range(2)],
            gap=rng.choice([0, 1, 2, 3, 7]),
            policy=dict(kind=rng.choice(["random", "rr", "meet"]), p=.3,
                        one_in=rng.choice([1, 3]),
                        quantum=rng.choice([1, 2, 3]),
                        seed=rng.randrange(1 << 30)),
            io={}, seed=rng.randrange(1 << 30))
    case = gen.gen_case(
        rng, n=rng.choice([3, 8, 15, 25, 40]), nz=rng.choice([1, 2, 3]), table=.5,
        sigma=rng.choice([0, None, None]),
        mmax=rng.choice(["Cumulative_Moment", "Cumulative_Moment",
                         "Kijko_Npg"]),
        proc=rng.choice([["Recurrence", "MaximumMagnitude"],
                         ["MaximumMagnitude", "Recurrence"],
                         ["MaximumMagnitude"], ["Recurrence"],
                         ["MaximumMagnitude", "MaximumMagnitude"]]))
    # some zones free of uncertainties in a catalogue with some
    if rng.random() < .4:
        for r in case["rows"]:
            if any(models.inside(float(r[10]), float(r[11]), z["poly"])
                   for z in case["zones"][:1]):
                r[18] = rng.choice(["0", "", "0.0"])
    variants = [gen_variant(rng, case) for _ in range(rng.choice([1, 2, 3]))]
    return dict(mode="runs", case=case, variants=variants, io=gen.gen_io(rng),
                detailed=rng.random() < .15, seed=rng.randrange(1 << 30))


def gen_variant(rng, case):
    kind = rng.choice(["seed", "seed", "repeat", "draws", "after", "hash",
                       "place"])
    v = dict(kind=kind, seed=rng.randrange(1 << 30))
    if kind == "draws":
        v["gap"] = rng.choice([1, 5, 50, 500])
    elif kind == "after":
        other = gen.gen_case(rng, n=rng.choice([3, 10]), sigma=None,
                             mmax="Cumulative_Moment",
                             proc=["MaximumMagnitude"])
        gen.same_paths(rng, other, case)
        v["other"] = other
    elif kind == "place":
        v["layout"] = gen.gen_layout(rng) or ["out", ""]
        v["same_seed"] = rng.random() < .5
    elif kind == "hash":
        v["hash"] = rng.choice([11, 23])
        v["same_seed"] = rng.random() < .5
    return v


def drawing_hook(gap):
    """Other code of the process that uses the ambient generators."""
    state = [0]

    def hook(frame):
        state[0] += 1
        if state[0] % gap == 0:
            if state[0] % (3 * gap):
                np.random.random_sample()
            else:
                random.random()
                np.random.normal(0, 1, 2)
    return hook


def simulate(scn, v, env):
    w = env.machine()
    case = scn["case"]
    if v["kind"] == "place":
        case = dict(case, layout=v["layout"])
    keep = False
    if v.get("other"):
        base.prepare(w, v["other"])
        base.boot(w, scn, now=epoch(2012), seed=v["seed"], leave_modules=True)
        keep = True
    base.prepare(w, case)
    for f in base.outputs(w, case["config"]):
        w.delete(f)
    same = v["kind"] == "repeat" or v.get("same_seed")
    trace = None
    if v["kind"] == "draws":
        trace = dict(hook=drawing_hook(v["gap"]))
    out = base.boot(w, scn, case=case, now=epoch(2012), keep_modules=keep,
                    trace=trace,
                    seed=None if keep else scn["seed"] if same else v["seed"])
    files = base.outputs(w, case["config"])
    return [out.brief(), {k: None if d is None else d.decode("latin-1")
                          for k, d in files.items()}]


def serve(request, env):
    return simulate(request["scn"], request["v"], env)


def execute(scn, env):
    if scn["mode"] == "runs":
        return runs(scn, env)
    return explicit(scn, env)


def runs(scn, env):
    case = scn["case"]
    cfg = case["config"]
    if not case["rows"] or not case["zones"]:
        return base.Verdict(nontrivial=False)
    first = simulate(scn, dict(kind="repeat", seed=0), env)
    try:
        p = base.reference(case)
    except Exception:
        p = None
    loose, drawn = set(), set()
    if p is not None and cfg["apply_processing_jobs"] and \
            "MaximumMagnitude" in (cfg["processing_jobs"] or []) and \
            cfg["MaximumMagnitude"]["maxim_mag_algorithm"] == \
            "Cumulative_Moment":
        for i, s in enumerate(p["sources"]):
            ev = base.expected_zone(p, s, cfg)[1]
            if any(r[6] != 0 for r in ev):
                loose.add(i)
            if any(r[6] >= .01 for r in ev):
                drawn.add(i)
    tags = []
    for v in scn["variants"]:
        if v["kind"] == "hash":
            env.probe("hash-seeds")
            got = peer.ask(ID, v["hash"], dict(
                scn=dict(scn, variants=[]), v=v))
        else:
            got = simulate(scn, v, env)
        same = v["kind"] == "repeat" or v.get("same_seed")
        where = dict(variant=v["kind"])
        env.probe("variant:" + v["kind"])
        if v["kind"] == "place":        # messages may name files
            got[0] = got[0][:2] + first[0][2:]
        if got[0] != first[0]:
            return base.bad("outcome-differs", want=first[0], got=got[0],
                            **where)
        if got[0][0] != "ok":
            continue
        bad = differ(first[1], got[1], cfg, set() if same else loose)
        if bad:
            return base.bad(bad.pop("cls"), **dict(bad, **where))
        if v["kind"] == "seed" and v["seed"] and drawn:
            stuck = repeated(p, first[1], got[1], cfg, drawn)
            if stuck:
                return base.bad("not-drawn", zones=stuck, **where)
            env.probe("zones-drawn", len(drawn))
        tags.append([v["kind"], bool(same)])
    env.probe("zones-random", len(loose))
    return base.Verdict(nontrivial=bool(tags), sig=base.sig(
        "runs", cfg["preprocessing_jobs"], cfg["processing_jobs"],
        cfg["Recurrence"]["recurrence_algorithm"],
        cfg["MaximumMagnitude"]["maxim_mag_algorithm"], sorted(loose),
        len(case["zones"]), len(case["rows"]), tags))


def repeated(p, a, b, cfg, drawn):
    """Zones whose bootstrapped estimate does not follow the generators."""
    x, y = (models.read_sources(d[cfg["result_file"]].encode("latin-1"))
            for d in (a, b))
    return [i for i in sorted(drawn) if x[i]["mmax"] == y[i]["mmax"] and
            repr(x[i]["mmax"]) != repr(p["sources"][i]["mmax"])]


def differ(a, b, cfg, loose):
    for f in sorted(a):
        if a[f] == b[f]:
            continue
        if f != cfg["result_file"] or not loose:
            return dict(cls="output-differs", file=f)
        x = models.read_sources(a[f].encode("latin-1"))
        y = models.read_sources(b[f].encode("latin-1"))
        if len(x) != len(y):
            return dict(cls="zone-count")
        for i, (s, t) in enumerate(zip(x, y)):
            d = models.diff_source(s, t, ignore=("mmax",) if i in loose else ())
            if d:
                return dict(cls="value-differs", zone=i, fields=d,
                            want=[s[k] for k in d], got=[t[k] for k in d])
    return None


# ------------------------------------------------------- an explicit seed

def states():
    a, b = random.getstate(), np.random.get_state()
    return [hash(a), b[0], b[1].tolist(), b[2:]]


def calculate(scn):
    from mtoolkit.scientific.maximum_magnitude import cum_mo_uncertainty
    ev = np.array(scn["events"])
    return [float(x) for x in cum_mo_uncertainty(
        ev[:, 0], ev[:, 1], ev[:, 2], scn["boots"], seed=scn["key"])]


def body(scn, w, result):
    from mtoolkit.scientific import maximum_magnitude    # noqa
    import sys
    got = []
    for k, ambient in enumerate(scn["ambient"]):
        for gap in {0, scn["gap"]}:
            random.seed(ambient)
            np.random.seed(ambient % (1 << 32))
            draws = []
            tracer = None
            if gap:
                one = drawing_hook(gap)

                def hook(frame):
                    draws.append(1)
                    one(frame)
                tracer = proc.Tracer(world=w, hook=hook)
                sys.settrace(tracer.call)
            try:
                got.append(calculate(scn))
            finally:
                sys.settrace(None)
            end = states()
            # what the draws of the others alone make of the state
            random.seed(ambient)
            np.random.seed(ambient % (1 << 32))
            if gap:
                again = drawing_hook(gap)
                for _ in draws:
                    again(None)
            if states() != end:
                return "disturbs", got
    return "ok", got


def threads(scn, w, holder):
    with sim_locks():
        from mtoolkit.scientific import maximum_magnitude    # noqa
        np.random.seed(scn["ambient"][0] % (1 << 32))
        random.seed(scn["ambient"][0])
        before = states()

        def other():
            s = dict(scn, key=scn["key"] + 1)
            return calculate(s)
        sched = Scheduler(w, scn["policy"],
                          [lambda: calculate(scn), other,
                           lambda: calculate(scn)])
        holder["sched"] = sched
        res, errors = sched.run()
        for e in errors:
            if e is not None:
                raise RuntimeError("thread: %s %s" % e)
        return "ok" if states() == before else "disturbs", [res[0], res[2]]


def same(a, b):
    return [repr(x) for x in a] == [repr(x) for x in b]


def explicit(scn, env):
    if not scn["events"]:
        return base.Verdict(nontrivial=False)
    w = env.machine()
    alone = proc.run_api(w, calculate, scn, now=epoch(2012), seed=1)
    if alone.status != "ok":
        return base.bad("bootstrap-fails", out=alone.brief())
    holder = {}
    if scn["mode"] == "threads":
        out = proc.run_api(w, threads, scn, w, holder, now=epoch(2012), seed=2)
    else:
        out = proc.run_api(w, body, scn, w, None, now=epoch(2012), seed=2)
    if out.status != "ok":
        return base.bad("bootstrap-fails", out=out.brief())
    what, got = out.value
    if what != "ok":
        return base.bad("ambient-state-disturbed", seed=scn["key"])
    for g in got:
        if not same(g, alone.value):
            return base.bad("seed-does-not-repeat", seed=scn["key"],
                            want=alone.value, got=g)
    env.probe("explicit:" + scn["mode"])
    sched = holder.get("sched")
    return base.Verdict(nontrivial=True, sig=base.sig(
        scn["mode"], len(scn["events"]), scn["boots"], scn["gap"],
        scn["key"], sched.switches if sched else None))
