"""C08: concurrent use gives the results of sequential use."""
import datetime as dt
import json
import os
import random
import threading

from sim import diagrams as dg, ops, pipes, sched, weather as wx
from sim.core import h, run_in_child, said, SimStop

RUNS = {"quick": 1200, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run starts two to four threads, each with one to three operations: independent ones with inputs of their own "
        "(pipelines, components, data tables, diagrams, files) and queries on diagrams and weather models that all "
        "threads share. The scheduler runs one thread at a time and decides at every line (or bytecode) of the library "
        "who runs next, by a seeded random or priority based policy; components of one thread may fail. Every result "
        "must equal the one of the same operation in a process that runs them one after the other. Non-trivial: at least "
        "one switch happened while two operations were under way. Distinct by digest.")
STATE_MEASURE = "distinct interleavings (sequence of switches with their places)"
REAL = "pipelines, components, diagrams, interpolation, routing, weather models, files; real threads"
STUB = ("thread scheduling (one runs at a time, switches decided by the scenario), locks taken by the library, "
        "random numbers (one stream per thread)")
ASSUMPTIONS = ["third-party code (numpy, scipy, pandas) is not interleaved inside a call, and not inside ODRPACK, which "
               "is not reentrant", "plots are left out: pyplot's state is global"]
SHRINK_LISTS = [("threads",), ("policy", "preempt")]

START = None  # the working directory, relative paths start there


def SHRINK(scn):
    return [("threads", i) for i in range(len(scn["threads"]))]


SHRINK_LISTS.append(SHRINK)


# --------------------------------------------------------------- scenarios
def gen_shared(rng):
    r = rng.random()
    if r < 0.62:
        s = ops.full_table(rng) if rng.random() < 0.45 else ops.gen_diagram(rng)
        if s["kind"] == "cloud":
            s["pts"] = s["pts"][:12]
        return ["diagram", s]
    if r < 0.85:
        return ["weather", [wx.gen_spec(rng)]]
    return ["weather", [wx.gen_spec(rng) for _ in range(rng.randint(2, 3))]]


def gen_query(rng, shared):
    k = rng.randrange(len(shared))
    kind, spec = shared[k]
    if kind == "weather":
        if rng.random() < 0.12 and len(spec) == 1:
            return ["file", k, rng.randrange(4)]
        pts = [wx.gen_point(rng, rng.choice(spec)) for _ in range(rng.randint(1, 4))]
        return ["weather", k, pts]
    r = rng.random()
    winds = [[round(rng.uniform(1, 20), 1), float(rng.randrange(0, 360, 5))] for _ in range(rng.randint(1, 4))]
    if r < 0.3:
        if spec["kind"] in ("table", "cloud") and rng.random() < 0.6:  # looked up among few points near by
            return ["call", k, winds, rng.choice([["ball", 0.1], ["ball", 0.2], ["ball", 0.4], ["scaling", 3], ["polytope"]]),
                    rng.choice([None, ["idw", 2], ["mean", 50], ["improved"], ["shepard"]])]
        return ["call", k, winds]
    if r < 0.45:
        return ["slices", k, rng.choice([8, [4.0, 8.0, 12.0], [6.0]]), rng.random() < 0.5]
    if r < 0.55:
        return ["points", k, winds]
    if r < 0.65:
        return ["symmetrize", k]
    if r < 0.75:
        return ["file", k, rng.randrange(4)]
    if r < 0.82:
        return ["views", k]
    if r < 0.88 or spec["kind"] not in ("table", "cloud"):  # the curves are too fast for trips
        return ["convex", k, rng.choice([6.0, 10.0]), float(rng.randrange(0, 360, 15))]
    start = [round(rng.uniform(-30, 30), 2), round(rng.uniform(-30, 30), 2)]
    trip = [start, [start[0] + 0.05, start[1] + rng.choice([0.05, -0.1, 0.0])], [rng.choice([3.0, -5.0]), 4.0],
            rng.choice([None, None, start[0] + 0.02]), float(rng.randrange(0, 360, 15))]
    return [rng.choice(["cost", "isochrone", "cruise"]), k, trip]


WEIGHT = {"component": 6, "pipeline": 6, "data": 2, "course": 2, "curve": 0, "plot": 0, "table-default": 1}


def gen_own(rng):
    names = [n for n in sorted(ops.OPS) for _ in range(WEIGHT.get(n, 1))]
    name = rng.choice(names)
    return ["own", name, ops.OPS[name].gen(rng)]


def gen_policy(rng, limit):
    kind = rng.choice(["random", "random", "pct", "place", "place"])
    p = {"kind": kind, "seed": rng.randrange(1 << 30), "limit": limit, "grain": "instr" if rng.random() < 0.25 else "line"}
    if kind == "random":
        p["p"] = rng.choice([0.5, 0.2, 0.05, 0.05, 0.01, 0.002])
    elif kind == "place":
        p["p"], p["every"] = rng.choice([0.8, 0.5, 0.2]), rng.choice([8, 25, 80])
    else:
        p["depth"] = rng.choice([2, 3, 5, 10, 20])
        p["horizon"] = rng.choice([100, 500, 2000, 10000])
    return p


def gen_twins(rng, n):
    r = rng.random()
    name = "component" if r < 0.4 else "pipeline" if r < 0.65 else rng.choice([n for n in sorted(ops.OPS) for _ in range(WEIGHT.get(n, 1))])
    each = rng.randint(1, 5 if name == "component" else 2)
    specs = [ops.OPS[name].gen(rng) for _ in range(each * n)]
    if name == "component" and rng.random() < 0.8:
        kind = (specs[0]["kind"], specs[0]["spec"][0])
        like = [specs[0]]
        for _ in range(400):
            s = ops.OPS[name].gen(rng)
            if (s["kind"], s["spec"][0]) == kind:
                like.append(s)
        specs = [rng.choice(like) for _ in specs]
    if name == "pipeline" and rng.random() < 0.7:  # equal ones with data of their own
        cfg = specs[0]["cfg"]
        for k, s in enumerate(specs):
            s.update({"cfg": cfg, "call": pipes.gen_call(rng, cfg, size=rng.choice([2, 3, 4])), "seed": k, "faults": []})
            s["call"]["train"] = s["call"]["train"][:1]
    specs = json.loads(json.dumps(specs))
    return [[["own", name, s] for s in specs[t * each:(t + 1) * each]] for t in range(n)]


def generate(rng, tier):
    threads = []
    if rng.random() < 0.09:
        return gen_first(rng, tier)
    style = rng.choice(["shared", "shared", "own", "mixed", "twins", "twins", "files", "files"])
    shared = [gen_shared(rng) for _ in range(rng.choice([1, 1, 2]))] if style in ("shared", "mixed", "files") else []
    if style == "files":
        shared = [s for s in shared if s[0] == "diagram" or len(s[1]) == 1] + [["diagram", ops.gen_diagram(rng)]]
    n = rng.choice([2, 2, 2, 3, 4])
    for _ in range(n):
        mine = []
        for _ in range(rng.randint(1, {"own": 2, "files": 5}.get(style, 3))):
            if style == "files":
                mine.append(["file", rng.randrange(len(shared)), rng.randrange(4)])
            elif style == "shared" or style == "mixed" and rng.random() < 0.5:
                mine.append(gen_query(rng, shared))
            else:
                mine.append(gen_own(rng))
        threads.append(mine)
    if style == "twins":  # the same kind of operation everywhere, with different inputs
        threads = gen_twins(rng, n)
    policy = gen_policy(rng, 40_000 if tier == "quick" else 400_000)
    if style == "files":  # little of a save is the library's own code
        policy.update({"random": {"p": rng.choice([0.5, 0.2])}, "place": {"every": 3}, "pct": {"horizon": rng.choice([30, 100])}}
                      [policy["kind"]])
    return {"shared": shared, "threads": threads, "policy": policy}


def gen_first(rng, tier):
    """Two threads that use the same fresh object, or fresh equal ones, for the first time"""
    if rng.random() < 0.7:
        shared = [gen_shared(rng)]
        if shared[0][0] == "diagram" and rng.random() < 0.4:
            shared = [["diagram", ops.full_table(rng)]]
        a = gen_query(rng, shared)
        while a[0] in ("cost", "isochrone", "cruise") and rng.random() < 0.8:
            a = gen_query(rng, shared)
        b = gen_query(rng, shared)
        for _ in range(60):
            if b[0] == a[0]:
                break
            b = gen_query(rng, shared)
        threads = [[a], [b]]
    else:
        shared, threads = [], [x[:1] for x in gen_twins(rng, 2)]
    return {"shared": shared, "threads": threads,
            "policy": {"kind": "sweep", "seed": rng.randrange(1 << 30), "first": rng.randrange(2),
                       "limit": 30_000, "rounds": 11 if tier == "quick" else 60, "grain": "instr" if rng.random() < 0.15 else "line"}}


# --------------------------------------------------------------- execution
class Randoms:
    """Every thread draws from its own stream."""

    def __init__(self):
        self.local = threading.local()

    def seed(self, n):
        import numpy as np

        self.local.np = np.random.RandomState(n % 2**32)
        self.local.py = random.Random(n)
        self.local.seed = n

    def install(self):
        import numpy as np

        pipes.seed_random = self.seed
        self.seed(0)
        for name in dir(np.random.RandomState):
            if not name.startswith("_") and hasattr(np.random, name) and name not in ("seed", "get_state", "set_state"):
                setattr(np.random, name, self.redirect("np", name))
        np.random.seed = self.seed
        for name in ("random", "uniform", "randint", "choice", "shuffle", "sample", "randrange", "gauss",
                     "normalvariate", "choices"):
            setattr(random, name, self.redirect("py", name))
        real = np.random.default_rng

        def default_rng(seed=None):
            return real(self.local.seed if seed is None else seed)

        np.random.default_rng = default_rng

    def redirect(self, which, name):
        def call(*a, **kw):
            if not hasattr(self.local, which):
                self.seed(0)
            return getattr(getattr(self.local, which), name)(*a, **kw)

        return call


def protect_odrpack():
    """ODRPACK keeps its state in static memory: no switches while it runs."""
    import scipy.odr

    real = scipy.odr.ODR.run

    def run(self, *a, **kw):
        s = sched._current
        if s is None or not s.owns():
            return real(self, *a, **kw)
        s.frozen = getattr(s, "frozen", 0) + 1
        try:
            return real(self, *a, **kw)
        finally:
            s.frozen -= 1

    scipy.odr.ODR.run = run


class Outages:
    """Weather of the routing queries: no state at all"""

    def __init__(self, u, v, cut):
        self.u, self.v, self.cut = u, v, cut

    def get_weather(self, point):
        if self.cut is not None and float(point[1]) > self.cut:
            raise ValueError("no weather")
        return {"UGRID": self.u, "VGRID": self.v, "HDT": 0.0}


def build_shared(shared):
    out = []
    for kind, spec in shared:
        if kind == "diagram":
            out.append(dg.build(spec))
        elif len(spec) == 1:
            out.append(wx.build(spec[0]))
        else:
            from hrosailing.models import MultiWeatherModel

            out.append(MultiWeatherModel(*[wx.build(s) for s in spec]))
    return out


def query(o, objects, scratch):
    from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
    from hrosailing.polardiagram import PolarDiagram, from_csv

    what, k = o[0], o[1]
    x = objects[k]
    if what == "weather":
        out = []
        for p in o[2]:
            try:
                out.append({str(a): float(v) for a, v in dict(x.get_weather(wx.point_of(p))).items()})
            except ValueError as exc:
                out.append(["err", said(exc)])
        return out
    if what == "call":
        out = []
        for ws, wa in o[2]:
            kw = {"neighbourhood": pipes.make_nhood(o[3])} if len(o) > 3 else {}
            if len(o) > 3 and o[4]:
                kw["interpolator"] = pipes.make_interp(o[4])
            try:
                out.append(float(x(ws, wa, **kw)))
            except (ValueError, ZeroDivisionError, RuntimeError) as exc:
                out.append(["err", type(exc).__name__, said(exc)[:150]])
        return out
    if what == "slices":
        return x.get_slices(o[2], full_info=o[3])
    if what == "points":
        import numpy as np

        return x.get_points(np.array(o[2]))
    if what == "symmetrize":
        return x.symmetrize()
    if what == "views":
        return [x.default_slices] + ([] if hasattr(x, "curve") or hasattr(x, "diagrams") else
                                     [x.default_points, x.wind_speeds, x.wind_angles, x.boat_speeds])
    if what == "file":
        path = scratch + "f" if o[2] < 2 else os.path.join(scratch, "f")  # together, or in directories of their own
        if o[2] % 2:
            path = os.path.relpath(path, START)
        if isinstance(x, PolarDiagram):
            x.to_csv(path + ".csv")
            return from_csv(path + ".csv")
        x.to_file(path)
        return type(x).from_file(path)
    if what == "convex":
        return [str(d) for d in convex_direction(x, o[2], o[3])]
    start, end, wind, cut, course = o[2]
    wm, time = Outages(*wind, cut), dt.datetime(2020, 5, 1, 12)
    if what == "cruise":
        return cruise(x, tuple(start), tuple(end), tuple(wind), wind_fmt="uv_grd")
    if what == "cost":
        return float(cost_cruise(x, tuple(start), tuple(end), time, wm=wm, rtol=1e-2))
    return isochrone(x, tuple(start), time, course, wm=wm, total_time=0.3)


def prepare(o, scratch):
    """Fresh inputs of an operation of its own"""
    if o[0] != "own":
        return None
    i = ops.OPS[o[1]].prepare(json.loads(json.dumps(o[2])))
    if "scratch" in i or o[1] == "component":
        i["scratch"] = scratch
    return i


def perform(o, i, objects, scratch, randoms):
    randoms.seed(7)
    try:
        r = ops.OPS[o[1]].call(i) if o[0] == "own" else query(o, objects, scratch)
    except SimStop:
        raise
    except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
        return ["err", type(exc).__name__, said(exc)[:150].replace(scratch, "").replace(os.path.relpath(scratch, START), "")], None
    return ["ok", ops.picture(r)], r


def name_of(o):
    if o[0] != "own":
        return o[0]
    s = o[2]
    if o[1] == "component":
        return f"component:{s['kind']}"
    return o[1]


def execute(scn, ctx):
    global START
    res = ctx.res
    START = ctx.scratch
    os.chdir(START)
    randoms = Randoms()
    randoms.install()
    protect_odrpack()
    dirs = {}
    for t, mine in enumerate(scn["threads"]):
        for k, _ in enumerate(mine):
            for who in "sc":
                dirs[who, t, k] = os.path.join(ctx.scratch, f"{who}{t}-{k}")
                os.makedirs(dirs[who, t, k], exist_ok=True)

    def sequential():
        objects = build_shared(scn["shared"])
        out = []
        for t, mine in enumerate(scn["threads"]):
            out.append([perform(o, prepare(o, dirs["s", t, k]), objects, dirs["s", t, k], randoms)[0]
                        for k, o in enumerate(mine)])
        return [out, [ops.picture(x) for x in objects]]

    st, want = run_in_child(sequential)
    if want is None:
        raise RuntimeError(f"reference run died with {st}")
    want, shown = want
    if scn["policy"]["kind"] != "sweep" or len(scn["threads"]) != 2:
        judge(scn, res, want, shown, concurrent(scn, scn["policy"], dirs, randoms, 0))
        return
    # one switch at a time: thread `first` runs so far, the other one completely, then the rest
    rng = random.Random(f"sweep:{scn['policy']['seed']}")
    first = scn["policy"]["first"]
    base = {"kind": "explicit", "grain": scn["policy"]["grain"], "limit": scn["policy"]["limit"]}

    def attempt(policy, number):
        st, seen = run_in_child(lambda: concurrent(scn, policy, dirs, randoms, number))
        if seen is None:
            raise RuntimeError(f"round {number} died with {st}")
        return judge(scn, res, want, shown, seen), seen

    fine, seen = attempt({**base, "preempt": [[0, first]], "record": True}, 0)
    if not fine:
        return
    new, length = seen["new"], max(2, seen["ends"][0])
    for number in range(1, scn["policy"]["rounds"] + 1):
        at = rng.choice(new) if new and rng.random() < 0.75 else rng.randrange(1, length)
        if not attempt({**base, "preempt": [[0, first], [at, 1 - first]]}, number)[0]:
            return


def concurrent(scn, policy, dirs, randoms, number):
    """The threads under one schedule, and everything that can be seen of it"""
    objects = build_shared(scn["shared"])
    every = [(t, k) for t, mine in enumerate(scn["threads"]) for k in range(len(mine))]
    where = {}
    for t, k in every:
        where[t, k] = dirs["c", t, k]
        if number:
            where[t, k] += f"-{number}"
            os.makedirs(where[t, k], exist_ok=True)
    inputs = {(t, k): prepare(scn["threads"][t][k], where[t, k]) for t, k in every}
    got = [[None] * len(mine) for mine in scn["threads"]]
    raw = {}
    overlapping = [0]

    if policy["kind"] == "sweep":
        policy = {**policy, "kind": "explicit"}

    def body(t):
        def run():
            for k, o in enumerate(scn["threads"][t]):
                got[t][k], raw[t, k] = perform(o, inputs[t, k], objects, where[t, k], randoms)

        return run

    s = Sched(policy, overlapping)
    outcome = s.run([body(t) for t in range(len(scn["threads"]))])
    stopped = None
    for t, r in enumerate(outcome):
        if r is None or r[0] != "ok":
            exc = None if r is None else r[1]
            if not isinstance(exc, SimStop) and r is not None:
                raise exc
            stopped = stopped or [t, str(exc)]
    seen = {"got": json.loads(json.dumps(got)), "switches": s.switches, "points": s.points, "overlapping": overlapping[0],
            "stopped": stopped, "new": s.new, "ends": s.ends, "fired": [], "later": [], "shared": []}
    for t, k in every:
        plan = inputs[t, k].get("plan") if inputs[t, k] else None
        seen["fired"] += [f[0] for f in plan.fired] if plan else []
    if stopped is None:
        for t, k in every:
            seen["later"].append([t, k, json.loads(json.dumps(ops.picture(raw[t, k]))) if got[t][k][0] == "ok" else None])
        seen["shared"] = [json.loads(json.dumps(ops.picture(x))) for x in objects]
    return seen


def judge(scn, res, want, shown, seen):
    text = "SWITCHES " + json.dumps(seen["switches"][:4000])
    res.log(text)
    res.trace[-1] = text
    res.count("switches", len(seen["switches"]))
    res.count("scheduling_points", seen["points"])
    res.state([seen["switches"]])
    if seen["overlapping"]:
        res.nontrivial = True
    res.fault("preemption", seen["overlapping"])
    for f in seen["fired"]:
        res.fault(f"fails:{f}")
    if seen["stopped"]:
        return res.fail("progress", "thread %d: %s" % tuple(seen["stopped"]))
    later = {(t, k): x for t, k, x in seen["later"]}
    for t, mine in enumerate(scn["threads"]):
        for k, o in enumerate(mine):
            a, b = want[t][k], seen["got"][t][k]
            res.count(f"{b[0]}:{name_of(o)}")
            if b[0] == "err" and os.environ.get("DBG"):
                res.count(f"err {name_of(o)} {b[1:]}"[:120])
            res.log(f"{t}.{k} {name_of(o)} -> {b[0]} {h(b[1]) if b[0] == 'ok' else b[1]}")
            if not pipes.same(a, b):
                return res.fail(f"differs:{name_of(o)}", f"thread {t} operation {k}: one after the other {str(a)[:400]}, "
                                                         f"concurrently {str(b)[:400]}")
            if b[0] == "ok" and not pipes.same(later[t, k], b[1]):
                return res.fail(f"result-changed-later:{name_of(o)}", f"thread {t} operation {k}: {str(b[1])[:300]} became "
                                                                      f"{str(later[t, k])[:300]}")
    for x, pic in zip(seen["shared"], shown):
        if not pipes.same(x, pic):
            return res.fail("shared-object-changed", f"{str(pic)[:300]} became {str(x)[:300]}")
    return True


class Sched(sched.Scheduler):
    def __init__(self, policy, overlapping):
        super().__init__(policy)
        self.overlapping = overlapping
        self.frozen = 0
        self.known, self.new, self.ends = set(), [], []

    def _choose(self):
        if self.policy.get("record") and not self.ends and self.here not in self.known:
            self.known.add(self.here)  # a line that the first thread has not reached before
            self.new.append(self.step)
        if self.frozen:
            return None
        return super()._choose()

    def _next_after_end(self):
        self.ends.append(self.step)
        return super()._next_after_end()

    def _hand_over(self, nxt):
        self.overlapping[0] += 1
        super()._hand_over(nxt)


def make_explicit(scn, run, sig):
    """The schedule as the list of its switches, which can then be minimised."""
    if scn["policy"]["kind"] == "explicit":
        return scn
    res = run(scn)
    lines = [x for x in res.get("trace", []) if x.startswith("SWITCHES ")][-1:]  # of the last round
    if not lines:
        return scn
    c = json.loads(json.dumps(scn))
    c["policy"] = {"kind": "explicit", "grain": scn["policy"]["grain"], "limit": scn["policy"].get("limit"), "preempt": json.loads(lines[0][9:])}
    if any(v[0] == sig for v in run(c).get("violations", [])):
        return c
    return scn


def shrink(scn):
    if len(scn["shared"]) > 1:
        for k in range(len(scn["shared"])):
            used = {o[1] for mine in scn["threads"] for o in mine if o[0] != "own"}
            if k not in used:
                c = json.loads(json.dumps(scn))
                del c["shared"][k]
                for mine in c["threads"]:
                    for o in mine:
                        if o[0] != "own" and o[1] > k:
                            o[1] -= 1
                yield c
    for t, mine in enumerate(scn["threads"]):
        for k, o in enumerate(mine):
            if o[0] in ("call", "weather", "points") and len(o[2]) > 1:
                for j in range(len(o[2])):
                    c = json.loads(json.dumps(scn))
                    del c["threads"][t][k][2][j]
                    yield c
