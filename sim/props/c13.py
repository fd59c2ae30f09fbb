"""C13: isochrones and trip costs end, and agree with sailing through the weather."""
import datetime as dt
import math

from sim.core import SimStop, StepBudget

RUNS = {"quick": 1500, "thorough": 100000}
LEVEL = "exploration"
RULE = ("A run asks for isochrones and trip costs on a simulated sea: wind zones, calms and weather "
        "outages along the course and in time, refused or empty answers, failing or flapping providers. "
        "Every answer is checked for termination within a step bound, against an independent chart and "
        "an independent time integration, and for repeatability. Non-trivial: a route met an outage or "
        "calm, or more than one wind. Distinct by digest.")
STATE_MEASURE = "distinct (class of sea, what was asked, zones met, outcome)"
REAL = "isochrone, cost_cruise, PolarDiagramCurve/Table evaluation, scipy.integrate.solve_ivp"
STUB = "weather provider (the simulated sea), speed function, influence model"
ASSUMPTIONS = ["chart: Mercator true at the starting latitude (isochrone) or mean latitude (cost)",
               "isochrones of the library are one-step integrations: tolerance is one step per change of wind"]
SHRINK_LISTS = [("asks",), lambda s: [("asks", i, "zones") for i in range(len(s["asks"]))]]

EXC = {"RuntimeError": RuntimeError, "OSError": OSError, "ConnectionError": ConnectionError,
       "MemoryError": MemoryError, "TypeError": TypeError}
START = dt.datetime(2021, 6, 1, 12)
INF = 1e9


def gen_wind(rng):
    r, a = rng.choice([1, 4, 8, 8, 15, 25]) * rng.uniform(0.6, 1.3), rng.uniform(-math.pi, math.pi)
    return [round(r * math.cos(a), 3), round(r * math.sin(a), 3)]


def gen_ask(rng, tier):
    ask = {"start": [round(rng.uniform(-60, 60), 3), round(rng.uniform(-150, 150), 3)],
           "dir": rng.choice([0, 90, 180, 270, rng.uniform(0, 360), rng.uniform(-90, 500)]),
           "pd": [rng.choice([0.2, 0.5, 1.0]), rng.choice([0, 0, 0.3, 0.3, 0.9, 0.9, 1.6])],
           "tz": rng.random() < 0.2, "im": rng.random() < 0.2, "extra": rng.random() < 0.3}
    ask["op"] = rng.choice(["isochrone", "isochrone", "cost", "both"])
    cls = rng.choice(["uniform", "space", "space", "end", "wild", "time"])
    ask["class"] = cls
    ask["wind"] = gen_wind(rng)
    ask["T"] = rng.choice([1, 1, 0.25, 3, 12, rng.uniform(0.1, 6)])
    ask["min_nodes"] = rng.choice([100, 100, 20, 7, 1, 2]) if cls != "wild" else rng.choice([1, 2, 3])
    ask["dist"] = rng.choice([1, 8, 30, rng.uniform(0.5, 60)])
    if rng.random() < 0.15:
        ask["dist"] = rng.choice([0.003, 0.02, 0.1])
    if rng.random() < 0.15:  # charts that count the longitudes beyond the date line
        ask["start"][1] = rng.choice([179.99, 180, -179.999, 190.5, 359.98, -200])
    ask["zones"] = zones = []
    scale = ask["dist"] if ask["op"] == "cost" else 4 * ask["T"]
    if cls == "space":
        s = 0.0
        for _ in range(rng.randint(1, 3)):
            s += rng.choice([0.3, 0.1, rng.uniform(0.02, 0.6)]) * scale
            w = rng.uniform(0.15, 0.5) * scale
            kind = rng.choice(["wind", "wind", "calm", "outage", "empty"])
            zones.append({"s": [s, s + w if rng.random() < 0.7 else INF], "t": [-INF, INF],
                          "do": kind, "wind": gen_wind(rng)})
            s += w
        if rng.random() < 0.2:
            zones[0]["s"][0] = -INF
    elif cls == "end":
        zones.append({"s": [-INF, INF], "t": [rng.choice([0.0, 0.5, rng.random()]) * ask["T"], INF],
                      "do": rng.choice(["calm", "outage", "empty"]), "wind": [0, 0]})
    elif cls == "time":
        t = 0.0
        ask["pd"][1] = min(0.9, ask["pd"][1])  # first no way, then wind: coarse steps (see DESIGN)
        for _ in range(rng.randint(1, 3)):
            t += rng.uniform(0.1, 0.5) * ask["T"]
            zones.append({"s": [-INF, INF], "t": [t, INF], "do": "wind", "wind": gen_wind(rng)})
    elif cls == "wild":
        ask["pd"][0] = 0.2
        ask["wind"] = [3.0, 4.0]
        for _ in range(rng.randint(1, 4)):
            z = {"s": sorted(rng.uniform(-0.2, 1.2) * scale for _ in range(2)),
                 "t": sorted(rng.uniform(-0.2, 1.5) * ask["T"] for _ in range(2)),
                 "do": rng.choice(["wind", "calm", "outage", "empty"]), "wind": [rng.uniform(-6, 6), rng.uniform(-6, 6)]}
            if rng.random() < 0.3:
                z["s"] = [-INF, INF]
            if rng.random() < 0.3:
                z["t"] = [-INF, INF]
            zones.append(z)
        if rng.random() < 0.3:
            ask["flap"] = [rng.choice([2, 3, 7, 50]), rng.choice(["outage", "empty", "calm"])]
    if rng.random() < 0.12:
        ask["fail"] = [rng.choice([1, 2, 5, 30, 200]), rng.choice(sorted(EXC))]
    if rng.random() < 0.06:
        ask["T"] = rng.choice([0, -1])
    if cls == "uniform" and rng.random() < 0.2:
        ask["pd"][0] *= 0.01  # a vessel that hardly moves
    ask["density"] = rng.choice([None, "one", "lat", "time"])
    ask["abs"] = rng.choice([None, "sum", "zero"])
    ask["ivp"] = rng.choice([{}, {}, {"rtol": 1e-6, "atol": 1e-8}, {"max_step": 0.5}])
    return ask


def generate(rng, tier):
    asks = [gen_ask(rng, tier) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.7:
        asks.append(dict(asks[0], again=0))
    return {"asks": asks}


# ------------------------------------------------------------------ chart
def chart(p, lat0):
    r = 60 * 180 / math.pi * math.cos(math.radians(lat0))
    return (r * math.radians(p[1]), r * math.log(math.tan(math.pi / 4 + math.radians(p[0]) / 2)))


def unchart(q, lat0):
    r = 60 * 180 / math.pi * math.cos(math.radians(lat0))
    return (math.degrees(2 * math.atan(math.exp(q[1] / r)) - math.pi / 2), math.degrees(q[0] / r))


def effect(ask, s, t):
    """(kind, wind) at distance s and time t; later zones cover earlier ones"""
    out = ("wind", ask["wind"])
    for z in ask["zones"]:
        if z["s"][0] <= s < z["s"][1] and z["t"][0] <= t < z["t"][1]:
            out = (z["do"], z["wind"])
    return out


def speed(ask, ws, wa):
    a, b = ask["pd"]
    return a * ws * (1 + b * math.cos(math.radians(wa)))


def boat_speed(ask, heading, kind, wind):
    """Reference speed (0 where there is no wind or no weather)"""
    if kind != "wind":
        return 0.0
    u, v = wind
    ws = math.hypot(u, v)
    wa = (heading - (180 + math.degrees(math.atan2(v, u)))) % 360
    return max(0.0, speed(ask, ws, wa))  # a boat that is driven back makes no way


class Sea:
    """The weather provider; knows the course and answers by the zones."""

    def __init__(self, ask, origin, v, lat0, budget, start):
        self.ask, self.origin, self.v, self.lat0, self.start = ask, origin, v, lat0, start
        self.budget = budget
        self.calls = 0
        self.met = set()
        self.bad = None
        self.fired = []
        self.shared = {}
        self.flaps = True
        self.spoiled = None

    def get_weather(self, point):
        self.calls += 1
        if self.calls > self.budget:
            raise SimStop(f"more than {self.budget} weather queries")
        time, lat, lon = point
        ask = self.ask
        if ask.get("fail") and self.calls == ask["fail"][0]:
            self.fired.append(ask["fail"][1])
            raise EXC[ask["fail"][1]]("simulated failure")
        x, y = chart((float(lat), float(lon)), self.lat0)
        dx, dy = x - self.origin[0], y - self.origin[1]
        s = dx * self.v[0] + dy * self.v[1]
        off = abs(dx * self.v[1] - dy * self.v[0])
        if off > 1e-6 * (1 + abs(s)) + 1e-5 and self.bad is None:
            self.bad = f"query at {lat}, {lon} lies {off} nm beside the course"
        t = (time - self.start).total_seconds() / 3600
        kind, wind = effect(ask, s, t)
        if self.flaps and ask.get("flap") and self.calls % ask["flap"][0] == 0:
            kind = ask["flap"][1]
        self.met.add((kind, tuple(wind)))
        if kind == "outage":
            raise ValueError("no weather known here")
        if kind == "empty":
            return {}
        u, w = wind if kind == "wind" else (0.0, 0.0)
        import numpy as np

        # always the same dict, as a provider with a cache would return it
        out = self.shared
        if out and out != self.given:
            self.spoiled = f"{self.given} became {out}"
        out.clear()
        out.update({"UGRID": np.float64(u), "VGRID": np.float64(w), "air pressure": 1013.0})
        if ask["extra"]:
            out["HDT"] = 12.0
        self.given = dict(out)
        return out


class Speed:
    """Influence model that takes the speed from what it is given"""

    def __init__(self, ask):
        self.ask = ask

    def add_influence(self, pd, influence_data):
        u, v, hdt = (influence_data[k][0] for k in ("UGRID", "VGRID", "HDT"))
        wa = (hdt - (180 + math.degrees(math.atan2(v, u)))) % 360
        return [pd(math.hypot(u, v), wa)]

    def remove_influence(self, data):
        raise NotImplementedError

    def fit(self, data):
        raise NotImplementedError


def integrate(ask, heading, upto_s=None, upto_t=None, n=4000):
    """Fine one-step integration along the course: distance after upto_t hours or time at upto_s"""
    vmax = 0.01
    for z in [{"do": "wind", "wind": ask["wind"]}] + ask["zones"]:
        vmax = max(vmax, boat_speed(ask, heading, z["do"], z["wind"]))
    s = t = 0.0
    if upto_t is not None:
        h = upto_t / n  # steps in time
        while t < upto_t - 1e-12:
            v = boat_speed(ask, heading, *effect(ask, s, t))
            s += (v if v > 1e-12 else 1e-3) * h
            t += h
        return s
    h = upto_s / n
    for i in range(n):
        v = boat_speed(ask, heading, *effect(ask, (i + 0.5) * h, t))
        t += h / v if v > 1e-12 else 1000 * h
    return t


def run_isochrone(ask, ctx, results):
    from hrosailing.cruising import isochrone

    res = ctx.res
    start = tuple(ask["start"])
    lat0 = start[0]
    d = math.radians(ask["dir"])
    v = (math.sin(d), math.cos(d))
    pd, vmax = make_pd(ask)
    mn = ask["min_nodes"]
    budget = 3000 + 200 * mn * mn + 20 * mn * int(vmax + 1)
    if ask["class"] == "wild":
        budget += int(20000 * (vmax + 1) * mn * mn)
    t_start = START.replace(tzinfo=dt.timezone.utc) if ask["tz"] else START
    sea = Sea(ask, chart(start, lat0), v, lat0, budget, t_start)
    kw = {"im": Speed(ask)} if ask["im"] else {}
    label = f"isochrone {ask['class']} T={ask['T']} nodes={mn} dir={ask['dir']}"
    try:
        with StepBudget(400 * budget):
            end, s = isochrone(pd, start, t_start, ask["dir"], sea, total_time=ask["T"], min_nodes=mn, **kw)
    except SimStop as exc:
        res.fail("isochrone-does-not-end", f"{label}: {exc}")
        return None
    except Exception as exc:  # pylint: disable=broad-except
        return failed(ask, sea, exc, label, res, ask["T"] <= 0)
    if sea.fired:
        res.fail("failure-hidden", f"{label}: {sea.fired}")
        return None
    if ask["T"] <= 0:
        if s != 0:
            res.fail("distance-in-no-time", f"{label}: {s}")
        return None
    note(ask, sea, res, label, s)
    if any(z["do"] == "wind" and boat_speed(ask, ask["dir"], "wind", z["wind"]) == 0 for z in ask["zones"]):
        res.fault("weather-drives-back")
    if sea.bad:
        res.fail("weather-of-another-place", f"{label}: {sea.bad}")
    end, s = (float(end[0]), float(end[1])), float(s)
    want = unchart((sea.origin[0] + s * v[0], sea.origin[1] + s * v[1]), lat0)
    if not s >= 0 or max(abs(a - b) for a, b in zip(want, end)) > 1e-7 * (1 + s):
        res.fail("end-not-at-distance", f"{label}: {s} nm lead to {want}, reported {end}")
    top = vmax * ask["T"]
    if s > top * (1 + 1e-9) + 1e-3 * ask["T"]:
        res.fail("faster-than-possible", f"{label}: {s} nm, at most {top}")
    h = 5 * ask["T"] / mn
    changes = 2 * len(ask["zones"])
    if ask["class"] in ("uniform", "space", "end", "time") and changes_resolved(ask, h, s):
        ref = integrate(ask, ask["dir"], upto_t=ask["T"])
        tol = 1e-6 * ref + 1e-9
        if changes:
            tol = 2e-3 * top + 2.5e-3 * ask["T"] + step_tolerance(ask, h, top)
        if abs(s - ref) > tol:
            res.fail("distance-differs", f"{label}: {s} nm instead of {ref} (tolerance {tol}), zones {ask['zones']}")
    return ("isochrone", end, s)


def step_tolerance(ask, h, top):
    """What one step per change of wind can cost: the boat may sail one step with the
    old speed, so it gains or loses at most a step at every speed met."""
    speeds = [boat_speed(ask, ask["dir"], z["do"], z["wind"]) for z in [{"do": "wind", "wind": ask["wind"]}] + ask["zones"]]
    fast = max(speeds)
    slow = min([x for x in speeds if x > 1e-9], default=fast)
    return h * len(ask["zones"]) * 2 * (1 + fast / max(slow, 1e-9))


def changes_resolved(ask, h, s):
    """Zones thinner than two steps can be stepped over; not compared"""
    for z in ask["zones"]:
        if z["s"][0] > -INF and z["s"][1] < INF and z["s"][1] - z["s"][0] < 2.5 * h:
            return False
    for z, nxt in zip(ask["zones"], ask["zones"][1:]):
        if nxt["s"][0] - z["s"][1] < 2.5 * h and nxt["s"][0] > -INF and z["s"][1] < INF:
            return False
    return True


def failed(ask, sea, exc, label, res, refused):
    for f in sea.fired:
        res.fault(f"provider-{f}")
    if sea.fired and isinstance(exc, EXC[sea.fired[0]]):
        res.count("failures_surfaced")
    elif refused and isinstance(exc, ValueError):
        res.count("refused")
    else:
        res.fail("raised", f"{label}: {exc!r}")
    res.log(label, type(exc).__name__)
    return None


def note(ask, sea, res, label, value):
    if sea.spoiled:
        res.fail("provider-data-changed", f"{label}: {sea.spoiled}")
    for kind, _ in sorted(sea.met):
        if kind != "wind":
            res.fault(f"weather-{kind}")
    if sea.flaps and ask.get("flap"):
        res.fault("weather-flapping")
    if len(sea.met) > 1:
        res.nontrivial = True
    res.sim_time += 3600.0 * max(0, ask["T"])
    res.state([ask["class"], label, sorted(sea.met), repr(value)])
    res.log(label, f"{sea.calls} queries -> {value!r}")


def make_pd(ask):
    import numpy as np
    from hrosailing.polardiagram import PolarDiagramCurve

    def func(ws, wa, a, b):
        return a * np.asarray(ws) * (1 + b * np.cos(np.deg2rad(np.asarray(wa))))

    winds = [ask["wind"]] + [z["wind"] for z in ask["zones"]]
    vmax = max(ask["pd"][0] * math.hypot(*w) * (1 + ask["pd"][1]) for w in winds)
    return PolarDiagramCurve(func, *ask["pd"]), vmax


def run_cost(ask, ctx, results, end=None, time=None):
    from hrosailing.cruising import cost_cruise

    res = ctx.res
    start = tuple(ask["start"])
    d = math.radians(ask["dir"])
    v = (math.sin(d), math.cos(d))
    if end is None:
        lat_s = start[0]
        o = chart(start, lat_s)
        end = unchart((o[0] + ask["dist"] * v[0], o[1] + ask["dist"] * v[1]), lat_s)
    lat0 = (start[0] + end[0]) / 2
    a, b = chart(start, lat0), chart(end, lat0)
    total_s = math.hypot(b[0] - a[0], b[1] - a[1])
    pd, vmax = make_pd(ask)
    t_start = START.replace(tzinfo=dt.timezone.utc) if ask["tz"] else START
    sea = Sea(ask, a, v, lat0, 60000, t_start)
    sea.flaps = False  # an integrator needs weather that is a function of place and time
    kw = dict(ask["ivp"])
    if ask["im"]:
        kw["im"] = Speed(ask)
    seen = []
    if ask["density"]:
        def dens(t, lat, lon, wm):
            seen.append((t, float(lat), float(lon), wm is sea))
            if ask["density"] == "time":
                return (t - t_start).total_seconds() / 3600
            return 1.0 if ask["density"] == "one" else float(chart((lat, lon), lat0)[1] - a[1])

        kw["cost_fun_dens"] = dens
    totals = []
    if ask["abs"]:
        def total(t, s):
            totals.append((float(t), float(s)))
            return t + 10 * s if ask["abs"] == "sum" else 0.0

        kw["cost_fun_abs"] = total
    label = f"cost {ask['class']} {start} to {end} {ask['density']} {ask['abs']} {ask['ivp']}"
    try:
        with StepBudget(60000 * 400):
            cost = float(cost_cruise(pd, start, end, t_start, sea, **kw))
    except SimStop as exc:
        res.fail("cost-does-not-end", f"{label}: {exc}")
        return None
    except Exception as exc:  # pylint: disable=broad-except
        return failed(ask, sea, exc, label, res, False)
    if sea.fired:
        res.fail("failure-hidden", f"{label}: {sea.fired}")
        return None
    note(ask, sea, res, label, cost)
    if sea.bad:
        res.fail("weather-of-another-place", f"{label}: {sea.bad}")
    # the absolute part, then the part along the way
    rest = cost
    if ask["density"] and not seen:
        res.fail("density-ignored", label)
        return None
    if ask["density"]:
        part = total_s if ask["density"] == "one" else total_s * (b[1] - a[1]) / 2
        if ask["density"] == "time":
            way = [math.hypot(x - a[0], y - a[1]) for x, y in (chart(p[1:3], lat0) for p in seen)]
            hours = [(p[0] - t_start).total_seconds() / 3600 for p in seen]
            part = sum((y - x) * (p + q) / 2 for x, y, p, q in zip(way, way[1:], hours, hours[1:]))
            pace = integrate(ask, ask["dir"], upto_s=total_s) / total_s
            if ask["class"] == "uniform" and any(
                    abs(t - x * pace) > 2e-3 * t + 1e-8 + 1e-6 * pace for t, x in zip(hours, way)):
                res.fail("density-arguments", f"{label}: {hours} at {way}")
        rest -= part
        times = [(x[0] - t_start).total_seconds() for x in seen]
        # the integrator may step back within its tolerance where the wind changes
        back = any(y < x - 0.02 * abs(x) - 60 for x, y in zip(times, times[1:]))
        if not all(x[3] for x in seen) or back or abs(times[0]) > 1e-6:
            res.fail("density-arguments", f"{label}: {seen[:5]}")
        for _, la, lo, _ in seen:
            x, y = chart((la, lo), lat0)
            if abs((x - a[0]) * v[1] - (y - a[1]) * v[0]) > 1e-6 * (1 + total_s):
                res.fail("density-beside-course", f"{label}: {la} {lo}")
                break
        if abs(seen[-1][1] - end[0]) + abs(seen[-1][2] - end[1]) > 1e-7 * (1 + total_s):
            res.fail("trip-does-not-arrive", f"{label}: last point {seen[-1]}, end {end}")
    if ask["abs"]:
        if len(totals) != 1 or abs(totals[0][1] - total_s) > 1e-7 * (1 + total_s):
            res.fail("distance-of-trip", f"{label}: {totals}, distance {total_s}")
        if ask["abs"] == "zero":
            if abs(rest) > 1e-6 * (abs(cost) + total_s):
                res.fail("cost-of-weather", f"{label}: {cost}, {rest} more than the weather costs")
            rest = totals[0][0] if totals else rest
        else:
            rest -= 10 * total_s
    slowest = 1000 * total_s
    fastest = total_s / vmax if vmax > 0 else slowest
    eps = 1e-6 * (abs(cost) + slowest * 1e-6 + total_s * 10)
    ref = integrate(ask, ask["dir"], upto_s=total_s) if ask["class"] in ("uniform", "space", "time") else None
    if ask["class"] == "uniform":
        if abs(rest - ref) > 2e-3 * ref + eps:
            res.fail("time-differs", f"{label}: {rest} h instead of {ref}")
    elif ref is not None and "max_step" in ask["ivp"] and total_s / 4000 < 0.1:
        lines = sum(1 for z in ask["zones"] for x in z["s"] if 0 < x < total_s)
        calm = any(boat_speed(ask, ask["dir"], z["do"], z["wind"]) < 1e-3
                   for z in [{"do": "wind", "wind": ask["wind"]}] + ask["zones"])
        pace = 1000.0 if calm else 1 / slowest_speed(ask)
        tol = 0.01 * ref + (lines + len(ask["zones"])) * 0.6 * pace + eps
        if abs(rest - ref) > tol:
            res.fail("time-differs", f"{label}: {rest} h instead of {ref} (tolerance {tol})")
    elif ask["class"] == "wild" and not fastest * 0.98 - eps <= rest <= slowest * 1.02 + eps:
        res.fail("impossible-time", f"{label}: {rest} h, between {fastest} and {slowest} possible")
    if time is not None and ask["class"] == "uniform" and abs(
            rest * math.cos(math.radians(start[0])) / math.cos(math.radians(lat0)) - time) > 3e-3 * time + eps:
        res.fail("isochrone-and-cost-disagree", f"{label}: {rest} h back to an isochrone of {time} h")
    return ("cost", cost)


def slowest_speed(ask):
    speeds = [boat_speed(ask, ask["dir"], z["do"], z["wind"]) for z in [{"do": "wind", "wind": ask["wind"]}] + ask["zones"]]
    return max(1e-3, min([x for x in speeds if x > 1e-9], default=1e-3))


def execute(scn, ctx):
    res = ctx.res
    results = []
    for ask in scn["asks"]:
        out = []
        if ask["op"] in ("isochrone", "both"):
            r = run_isochrone(ask, ctx, results)
            out.append(r)
            if ask["op"] == "both" and r is not None and r[2] > 1e-6 and not ask.get("fail"):
                out.append(run_cost(ask, ctx, results, r[1], ask["T"]))
        else:
            out.append(run_cost(ask, ctx, results))
        results.append(out)
        if ask.get("again") is not None and ask["again"] < len(results) - 1:
            first = results[ask["again"]]
            if scn["asks"][ask["again"]] == {k: v for k, v in ask.items() if k != "again"} and first != out:
                res.fail("answer-depends-on-history", f"{first} became {out}")
