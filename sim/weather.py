"""Generated gridded weather: JSON specs, construction and an independent lookup."""
import datetime as dt
import json
import math

from sim.core import other_digits

ATTRS = ["TWS", "TWD", "air pressure", "temp", "current_speed", "Ströömung", "a\"b", "x y", "rain\n"]


def gen_times(rng, n, tz):
    t = dt.datetime(rng.randint(1990, 2035), rng.randint(1, 12), rng.randint(1, 28),
                    rng.randint(0, 23), rng.choice([0, 0, 30, 59]), rng.choice([0, 0, 17]))
    step = rng.choice([3600, 3600, 10800, 1, 0.25, 0.000001, 86400])
    out = []
    for i in range(n):
        x = t
        off = tz
        if tz is not None and rng.random() < 0.2:
            off = rng.choice([0, 60, -300, 330, 53.5])
        if off is not None:
            x = t.replace(tzinfo=dt.timezone.utc).astimezone(
                dt.timezone(dt.timedelta(minutes=off)))
        out.append(x.isoformat())
        t += dt.timedelta(seconds=step * rng.choice([1, 1, 1, 2]))
    return out


def gen_axis(rng, n, lo, hi):
    if rng.random() < 0.3:
        start = rng.choice([rng.randint(int(lo), int(hi) - n), rng.randint(-n, 0)])
        return [start + i for i in range(n)]
    vals = {0.0} if rng.random() < 0.15 else set()
    while len(vals) < n:
        vals.add(round(rng.uniform(lo, hi), rng.choice([0, 1, 3, 12])))
    return sorted(vals)


def gen_spec(rng, nan=False, big=False):
    hi = 5 if big else 3
    nt, na, no = (rng.choice([1, 2, 2, 3, hi]) for _ in range(3))
    ns = rng.randint(1, 3)
    tz = rng.choice([None, None, None, 0, 120, -570, -25.35])
    attrs = rng.sample(ATTRS, ns)

    def val():
        if nan and rng.random() < 0.05:
            return float("nan")
        if rng.random() < 0.1:
            return rng.choice([0.0, -0.0, 1e-300, 0.1 + 0.2, 1e17])
        return rng.choice([rng.uniform(-30, 1030), float(rng.randint(0, 50))])

    return {
        "times": gen_times(rng, nt, tz), "lats": gen_axis(rng, na, -80, 80),
        "lons": gen_axis(rng, no, -179, 179), "attrs": attrs,
        "data": [[[[val() for _ in attrs] for _ in range(no)] for _ in range(na)] for _ in range(nt)],
    }


def older(spec):
    """Same grid (and mostly the same length in a file), other values."""
    spec = json.loads(json.dumps(spec))
    spec["data"] = [[[[other_digits(v) for v in c] for c in b] for b in a] for a in spec["data"]]
    return spec


def times(spec):
    return [dt.datetime.fromisoformat(t) for t in spec["times"]]


def build(spec):
    from hrosailing.models import GriddedWeatherModel

    return GriddedWeatherModel(
        data=spec["data"], times=times(spec), lats=list(spec["lats"]),
        lons=list(spec["lons"]), attrs=list(spec["attrs"]),
    )


def content(model):
    import numpy as np

    t, la, lo = model.grid
    return {
        "times": [[x.astimezone(dt.timezone.utc).isoformat() if x.tzinfo else x.isoformat(),
                   None if x.tzinfo is None else x.utcoffset().total_seconds()] for x in t],
        "lats": [float(x) for x in la], "lons": [float(x) for x in lo],
        "attrs": [str(a) for a in model.attrs],
        "data": repr(np.asarray(model.data, float).tolist()),
        "shape": list(np.shape(model.data)),
    }


def expected(spec):
    t = times(spec)
    n = len(spec["attrs"])
    return {
        "times": [[x.astimezone(dt.timezone.utc).isoformat() if x.tzinfo else x.isoformat(),
                   None if x.tzinfo is None else x.utcoffset().total_seconds()] for x in t],
        "lats": [float(x) for x in spec["lats"]], "lons": [float(x) for x in spec["lons"]],
        "attrs": list(spec["attrs"]),
        "data": repr([[[[float(v) for v in c] for c in b] for b in a] for a in spec["data"]]),
        "shape": [len(t), len(spec["lats"]), len(spec["lons"]), n],
    }


def diff(want, got):
    for k in want:
        if want[k] != got.get(k):
            return f"{k}: expected {str(want[k])[:200]} got {str(got.get(k))[:200]}"
    return None


def _bracket(axis, x):
    """(i, weight of i+1) or None if outside"""
    if x < axis[0] or x > axis[-1]:
        return None
    for i, v in enumerate(axis):
        if v == x:
            return i, 0.0
    for i in range(len(axis) - 1):
        if axis[i] < x < axis[i + 1]:
            return i, (x - axis[i]) / (axis[i + 1] - axis[i])
    return None


def lookup(spec, point):
    """Multilinear interpolation; None outside of the grid."""
    axes = [times(spec), spec["lats"], spec["lons"]]
    br = [_bracket(a, x) for a, x in zip(axes, point)]
    if any(b is None for b in br):
        return None
    out = {}
    for s, attr in enumerate(spec["attrs"]):
        v = 0.0
        scale = 0.0
        for corner in range(8):
            w = 1.0
            idx = []
            for d, (i, f) in enumerate(br):
                hi = corner >> d & 1
                w *= f if hi else 1 - f
                idx.append(i + hi)
            if w == 0.0:
                continue
            x = spec["data"][idx[0]][idx[1]][idx[2]][s]
            v += w * x
            scale = max(scale, abs(x))
        out[attr] = (v, scale)
    return out


def same_weather(got, want):
    """Difference between an answer and the reference (None if equal)."""
    if set(got) != set(want):
        return f"attributes {sorted(got)} instead of {sorted(want)}"
    for k, (v, scale) in want.items():
        g = float(got[k])
        if math.isnan(v) != math.isnan(g):
            return f"{k} is {g}, should be {v}"
        if not math.isnan(v) and abs(g - v) > 1e-7 * scale + 1e-300:
            return f"{k} is {g!r}, should be {v!r}"
    return None


def gen_point(rng, spec):
    """A query: [ISO time, lat, lon]; often on grid lines, borders or outside."""
    ts = times(spec)

    def pick(axis, span):
        r = rng.random()
        if r < 0.3:
            return rng.choice(axis)
        if r < 0.42:
            return rng.choice([axis[0], axis[-1]])
        if r < 0.55:
            return rng.choice([axis[0] - span, axis[-1] + span])
        i = rng.randrange(len(axis))
        j = min(len(axis) - 1, i + 1)
        return axis[i] + (axis[j] - axis[i]) * rng.choice([0.5, rng.random(), 0.999999])

    eps = rng.choice([1e-9, 0.5, 30])
    t = pick(ts, dt.timedelta(seconds=rng.choice([0.000001, 1, 86400])))
    if t.tzinfo is not None and rng.random() < 0.5:
        t = t.astimezone(dt.timezone(dt.timedelta(minutes=rng.choice([0, 345, -60]))))
    return [t.isoformat(), pick(list(map(float, spec["lats"])), eps),
            pick(list(map(float, spec["lons"])), eps)]


def point_of(p):
    return (dt.datetime.fromisoformat(p[0]), p[1], p[2])
