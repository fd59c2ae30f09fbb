"""C11: weather lookups interpolate, refuse and fall back correctly while providers fail."""
import datetime as dt
import json
import math

from sim import weather as wx
from sim.optional import Optional

RUNS = {"quick": 2500, "thorough": 200000}
LEVEL = "exploration"
RULE = ("A run builds weather sources (grids, NetCDF files, weather stations, nested combinations), "
        "fetches and queries them in a seeded order while single sources are out, answer for a part "
        "only or fail in different ways per query; every answer is compared with an independent "
        "lookup. Non-trivial: a query was answered from at least one source. Distinct by digest.")
STATE_MEASURE = "distinct (source kinds, availability, query class, outcome)"
REAL = "GriddedWeatherModel, NetCDFWeatherModel, MultiWeatherModel, GriddedWeatherModel.from_meteostat"
STUB = "netCDF4.Dataset (in-memory file), meteostat (in-memory stations), providers' availability"
ASSUMPTIONS = ["relative tolerance 1e-7 of the largest corner value for interpolated values",
               "the stub of netCDF4 prints variables as netCDF4 does (type, name and dimensions in line 2)"]
SHRINK_LISTS = [("queries",), ("sources",)]

IGNORED = ["ValueError", "TypeError", "KeyError", "NotImplementedError"]
SURFACING = ["OSError", "RuntimeError", "ConnectionError", "TimeoutError", "MemoryError", "AttributeError"]
EXC = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
       "NotImplementedError": NotImplementedError, "OSError": OSError, "RuntimeError": RuntimeError,
       "ConnectionError": ConnectionError, "TimeoutError": TimeoutError, "MemoryError": MemoryError,
       "AttributeError": AttributeError}


# ------------------------------------------------------------- generation
def gen_netcdf(rng):
    step = rng.choice(["hours", "hours", "seconds"])
    nt, na, no = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    t = sorted(rng.sample(range(0, 30), nt))
    if rng.random() < 0.4:
        t = [x + rng.choice([0, 0.5, 0.25]) for x in t]
    lats = wx.gen_axis(rng, na, -60, 60)
    lons = wx.gen_axis(rng, no, -150, 150)
    names = rng.sample(["u10", "v10", "swh", "t2m", "msl"], rng.randint(1, 3))
    level = rng.random() < 0.4
    variables = {}
    gaps = rng.choice([0, 0, 0.1, 0.3])
    for n in names:
        dims = ["time", "latitude", "longitude"]
        if rng.random() < 0.3:
            dims = [d for d in dims if rng.random() < 0.7] or ["latitude"]
        if level and rng.random() < 0.6:
            dims.insert(rng.randint(0, len(dims)), "level")
        rng.shuffle(dims)
        sizes = {"time": nt, "latitude": na, "longitude": no, "level": 2}

        def block(ds):
            if not ds:
                if rng.random() < gaps:
                    return None  # a cell without a value (masked)
                return rng.choice([rng.uniform(-20, 20), float(rng.randint(-9, 9))])
            return [block(ds[1:]) for _ in range(sizes[ds[0]])]

        variables[n] = {"dims": dims, "data": block(dims)}
    return {"kind": "netcdf", "unit": step, "start": "2021-03-04 0%d:00" % rng.randint(0, 9) + rng.choice(["", ":00"]),
            "t": t, "lats": lats, "lons": lons, "flip": [rng.random() < 0.5, rng.random() < 0.5],
            "vars": variables, "level": rng.choice([0, 1]) if level else None,
            "alias": rng.random() < 0.3}


def gen_stations(rng):
    n_t, na, no = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
    keys = rng.sample(["temp", "wspd", "wdir", "pres"], rng.randint(1, 3))
    extra = rng.random() < 0.5
    offset, lost = [], []
    mix = rng.random() < 0.2
    for _ in range(na * no):
        offset.append(rng.choice([0, 0, 1]) if mix else 0)
        lost.append(rng.random() < rng.choice([0, 0.2, 0.5]))
    return {"kind": "stations", "start": "2022-0%d-01T0%d:00:00" % (rng.randint(1, 9), rng.randint(0, 9)),
            "n": n_t, "lats": wx.gen_axis(rng, na, -60, 60), "lons": wx.gen_axis(rng, no, -150, 150),
            "keys": keys, "extra": extra, "offset": offset, "lost": lost, "salt": rng.randint(1, 99),
            "fails": [rng.randrange(na * no), rng.choice(["ConnectionError", "OSError", "TimeoutError", "ValueError"])]
            if rng.random() < 0.2 else None}


def gen_source(rng, depth=0):
    r = rng.random()
    if r < 0.2:
        return gen_netcdf(rng)
    if r < 0.32:
        return gen_stations(rng)
    if r < 0.5 and depth < 2:
        return {"kind": "multi", "sensitive": rng.random() < 0.15, "flaky": rng.random() < 0.5,
                "parts": [gen_source(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]}
    return {"kind": "grid", "spec": wx.gen_spec(rng, nan=rng.random() < 0.15, big=True)}


def near(rng, base):
    """A spec whose grid overlaps that of base."""
    spec = json.loads(json.dumps(base))
    spec["attrs"] = rng.sample(wx.ATTRS, len(base["attrs"]))
    if len(spec["times"]) > 1 and rng.random() < 0.4:
        k = rng.randint(1, len(spec["times"]) - 1)
        spec["times"], spec["data"] = spec["times"][k:], spec["data"][k:]
    if len(spec["lats"]) > 1 and rng.random() < 0.4:
        spec["lats"] = spec["lats"][:-1]
        spec["data"] = [b[:-1] for b in spec["data"]]
    spec["data"] = [[[[v + 1 for v in d] for d in c] for c in b] for b in spec["data"]]
    return spec


def grids_of(src):
    if src["kind"] == "multi":
        return [g for p in src["parts"] for g in grids_of(p)]
    if src["kind"] == "same" or src["kind"] == "stations" and want_stations(src) is None:
        return []
    return [src]


def spec_of(src):
    """Reference grid of a source (wx spec), by plain index arithmetic"""
    if src["kind"] == "grid":
        return src["spec"]
    if src["kind"] == "netcdf":
        start = dt.datetime.fromisoformat(src["start"])
        sec = {"hours": 3600, "seconds": 1}[src["unit"]]
        data = []
        names = list(src["vars"]) + (["level"] if src["level"] is not None else [])
        for i in range(len(src["t"])):
            data.append([])
            for j in range(len(src["lats"])):
                data[i].append([])
                for k in range(len(src["lons"])):
                    vals = []
                    for n in src["vars"]:
                        v = src["vars"][n]["data"]
                        for d in src["vars"][n]["dims"]:
                            v = v[{"time": i, "latitude": j, "longitude": k, "level": src["level"]}[d]]
                        vals.append(math.nan if v is None else v)
                    if src["level"] is not None:
                        vals.append([1000.0, 850.0][src["level"]])
                    data[i][j].append(vals)
        return {"times": [(start + dt.timedelta(seconds=sec * x)).isoformat() for x in src["t"]],
                "lats": src["lats"], "lons": src["lons"], "attrs": names, "data": data}
    return want_stations(src)


def wx_flat(x):
    return [v for part in x for v in wx_flat(part)] if isinstance(x, list) else [x]


def station_value(src, j, k, hour, key):
    return round(math.sin(src["salt"] + 7 * j + 13 * k + 3 * hour) * 10 + len(key), 3)


def want_stations(src):
    """Reference of a fetch; None if it has to be refused."""
    if src["fails"]:
        return None
    no = len(src["lons"])
    there = [i for i, lost in enumerate(src["lost"]) if not lost]
    if not there or len({src["offset"][i] for i in there}) > 1:
        return None
    off = src["offset"][there[0]]
    start = dt.datetime.fromisoformat(src["start"])
    data = [[[[0.0 if src["lost"][j * no + k] else station_value(src, j, k, off + i, key)
               for key in src["keys"]] for k in range(no)] for j in range(len(src["lats"]))]
            for i in range(src["n"])]
    return {"times": [(start + dt.timedelta(hours=off + i)).isoformat() for i in range(src["n"])],
            "lats": src["lats"], "lons": src["lons"], "attrs": list(src["keys"]), "data": data}


def leaves(src, path=()):
    """Paths of all provider nodes (whose availability the simulator decides)"""
    out = [path]
    if src["kind"] == "multi":
        for i, p in enumerate(src["parts"]):
            if p["kind"] == "same":
                continue
            out += leaves(p, path + (i,))
    return out


def generate(rng, tier):
    sources = [gen_source(rng)]
    base = grids_of(sources[0])
    if rng.random() < 0.7:
        parts = [sources[0]]
        grids = [b for b in base if b["kind"] == "grid"]
        for _ in range(rng.randint(1, 3)):
            if grids and rng.random() < 0.8:
                parts.insert(rng.randint(0, len(parts)), {"kind": "grid", "spec": near(rng, rng.choice(grids)["spec"])})
            else:
                parts.append(gen_source(rng, 1))
        if rng.random() < 0.15:  # one source at two places
            i = rng.randrange(len(parts))
            parts.append({"kind": "same", "of": i})
        sources.append({"kind": "multi", "sensitive": rng.random() < 0.1, "flaky": True, "parts": parts})
    queries = []
    for _ in range(rng.randint(2, 14 if tier == "quick" else 25)):
        s = rng.randrange(len(sources))
        grids = grids_of(sources[s]) or [{"kind": "grid", "spec": wx.gen_spec(rng)}]
        spec = spec_of(rng.choice(grids))
        p = wx.gen_point(rng, spec)
        for _ in range(3):
            if wx.lookup(spec, wx.point_of(p)) is None and rng.random() < 0.8:
                p = wx.gen_point(rng, spec)
        paths = leaves(sources[s])
        out = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            out.append([list(rng.choice(paths)), rng.choice(IGNORED * 4 + SURFACING)])
        queries.append({"source": s, "point": p, "out": out, "spoil": rng.random() < 0.5,
                        "as": rng.choice(["tuple", "list"])})
    return {"sources": sources, "queries": queries}


# ------------------------------------------------------------------ stubs
class Down:
    """Which providers are out during the current query"""

    def __init__(self):
        self.now = {}
        self.fired = []


class Provider:
    def __init__(self, inner, path, down):
        self.inner, self.path, self.down = inner, path, down

    def get_weather(self, point):
        kind = self.down.now.get(self.path)
        if kind:
            self.down.fired.append(kind)
            raise EXC[kind]("simulated outage")
        return self.inner.get_weather(point)


class FakeVariable:
    def __init__(self, name, dims, data, units=None):
        import numpy as np

        data = np.array(data, dtype=float)
        if np.isnan(data).any():
            data = np.ma.masked_array(np.where(np.isnan(data), 9.969209968386869e36, data), np.isnan(data))
        self.name, self.dims, self.data = name, dims, data
        self.dimensions, self.shape, self.ndim = tuple(dims), self.data.shape, self.data.ndim
        if units:
            self.units = units

    def __getitem__(self, idx):
        return self.data[idx]

    def __len__(self):
        return len(self.data)

    def __array__(self, dtype=None):
        import numpy as np

        return np.ma.filled(np.ma.asarray(self.data, dtype=dtype), np.nan)

    def __str__(self):
        return (f"<class 'netCDF4._netCDF4.Variable'>\nfloat64 {self.name}({', '.join(self.dims)})\n"
                "unlimited dimensions: \n")


class FakeDataset:
    def __init__(self, src):
        names = {"time": "time", "latitude": "latitude", "longitude": "longitude"}
        if src["alias"]:
            names = {"time": "valid_time", "latitude": "lat", "longitude": "lon"}
        lats = src["lats"][::-1] if src["flip"][0] else src["lats"]
        lons = src["lons"][::-1] if src["flip"][1] else src["lons"]
        v = {names["time"]: FakeVariable(names["time"], [names["time"]], src["t"],
                                         f"{src['unit']} since {src['start']}"),
             names["latitude"]: FakeVariable(names["latitude"], [names["latitude"]], lats),
             names["longitude"]: FakeVariable(names["longitude"], [names["longitude"]], lons)}
        import numpy as np

        for n, var in src["vars"].items():
            data = np.array(var["data"], dtype=float)
            for d, name in enumerate(var["dims"]):
                if name == "latitude" and src["flip"][0] or name == "longitude" and src["flip"][1]:
                    data = np.flip(data, d)
            v[n] = FakeVariable(n, [names.get(d, d) for d in var["dims"]], data)
        if src["level"] is not None:
            v["level"] = FakeVariable("level", ["level"], [1000.0, 850.0])
        self.variables = v
        self.names = names

    def __getitem__(self, key):
        return self.variables[key]


def install_netcdf(src):
    ds = FakeDataset(src)

    def dataset(path, *_args, **_kwargs):
        if path != "sim://weather.nc":
            raise FileNotFoundError(path)
        return ds

    Optional.dataset = dataset
    aliases = None
    if src["alias"]:
        aliases = {"lat": ds.names["latitude"], "lon": ds.names["longitude"], "datetime": ds.names["time"]}
    return aliases, (None if src["level"] is None else {"level": src["level"]})


def install_stations(src):
    import pandas as pd

    calls = [0]

    class Point:
        def __init__(self, lat, lon, alt=0):
            self.at = (lat, lon)

    class Hourly:
        def __init__(self, loc, start, end):
            self.loc = loc

        def fetch(self):
            i = calls[0]
            calls[0] += 1
            if src["fails"] and i == src["fails"][0]:
                raise EXC[src["fails"][1]]("simulated network failure")
            j = src["lats"].index(self.loc.at[0])
            k = src["lons"].index(self.loc.at[1])
            at = j * len(src["lons"]) + k
            hours = [] if src["lost"][at] else range(src["offset"][at], src["offset"][at] + src["n"])
            cols = (["snow"] if src["extra"] else []) + src["keys"][::-1]
            start = dt.datetime.fromisoformat(src["start"])
            return pd.DataFrame(
                {c: [station_value(src, j, k, h, c) for h in hours] for c in cols}, dtype=float,
                index=pd.DatetimeIndex([start + dt.timedelta(hours=h) for h in hours], name="time"))

    Optional.point, Optional.hourly = Point, Hourly


def build(src, path, down, ctx):
    from hrosailing.models import GriddedWeatherModel, MultiWeatherModel, NetCDFWeatherModel

    kind = src["kind"]
    if kind == "grid":
        inner = wx.build(src["spec"])
    elif kind == "netcdf":
        aliases, further = install_netcdf(src)
        if any(None in wx_flat(v["data"]) for v in src["vars"].values()):
            ctx.res.fault("netcdf-cell-missing")
        inner = ctx.must("open-netcdf", NetCDFWeatherModel, "sim://weather.nc", aliases, further)
    elif kind == "stations":
        install_stations(src)
        start = dt.datetime.fromisoformat(src["start"])
        args = (list(src["lats"]), list(src["lons"]), start, start + dt.timedelta(hours=src["n"]), list(src["keys"]))
        ref = want_stations(src)
        for key, lost in (("station-without-data", any(src["lost"])), ("station-unreachable", src["fails"])):
            if lost:
                ctx.res.fault(key)
        if ref is None:
            try:
                got = GriddedWeatherModel.from_meteostat(*args)
            except Exception as exc:  # pylint: disable=broad-except
                mixed = len({o for o, lost in zip(src["offset"], src["lost"]) if not lost}) > 1
                if src["fails"] and not mixed and not isinstance(exc, EXC[src["fails"][1]]):
                    ctx.res.fail("fetch-failure-replaced", f"{src['fails']} became {exc!r}")
                inner = None
            else:
                ctx.res.fail("impossible-fetch-accepted", f"{wx.content(got)} of {src}")
                inner = got
        else:
            inner = ctx.must("fetch", GriddedWeatherModel.from_meteostat, *args)
            d = wx.diff(wx.expected(ref), wx.content(inner))
            if d:
                ctx.res.fail("fetched-grid", d)
        if inner is None:
            inner = Nothing()
    else:
        parts = []
        for i, p in enumerate(src["parts"]):
            parts.append(parts[p["of"]] if p["kind"] == "same" else build(p, path + (i,), down, ctx))
        inner = MultiWeatherModel(*parts, exception_sensitive=src["sensitive"])
    return Provider(inner, path, down)


class Nothing:
    """A source that could not be fetched"""

    def get_weather(self, point):
        raise ValueError("never fetched")


# ----------------------------------------------------------------- oracle
def want(src, path, point, down):
    """("ok", {attr: (value, scale)}) or ("err", set of acceptable names)"""
    if down.get(path):
        return ("err", down[path])
    if src["kind"] != "multi":
        if src["kind"] == "stations" and want_stations(src) is None:
            return ("err", "ValueError")
        spec = spec_of(src)
        t = point[0]
        aware = wx.times(spec)[0].tzinfo is not None
        if (t.tzinfo is not None) != aware:
            return ("err", "TypeError")
        out = wx.lookup(spec, point)
        return ("err", "ValueError") if out is None else ("ok", out)
    got = {}
    for i, p in enumerate(src["parts"]):
        i = p.get("of", i)
        r = want(src["parts"][i], path + (i,), point, down)
        if r[0] == "ok":
            got.update(r[1])
        elif src["sensitive"] or r[1] not in IGNORED:
            return r
    return ("ok", got)


def execute(scn, ctx):
    res = ctx.res
    down = Down()
    models = [build(s, (), down, ctx) for s in scn["sources"]]
    for q in scn["queries"]:
        src = scn["sources"][q["source"]]
        point = wx.point_of(q["point"])
        down.now = {tuple(p): k for p, k in q["out"]}
        down.fired = []
        ref = want(src, (), point, down.now)
        given = tuple(point) if q["as"] == "tuple" else list(point)
        try:
            got = ("ok", models[q["source"]].get_weather(given))
        except Exception as exc:  # pylint: disable=broad-except
            got = ("err", exc)
        for f in down.fired:
            res.fault(f"outage-{f}")
        res.count("answers" if got[0] == "ok" else "refusals")
        label = f"{q['point']} with outages {q['out']} of {src['kind']}"
        res.log(label, got[0])
        res.state([src["kind"], q["out"], ref[0], len(ref[1]) if ref[0] == "ok" else ref[1], label])
        if ref[0] == "err":
            if got[0] == "ok":
                sig = "surfacing-failure-hidden" if ref[1] in SURFACING else "answered-outside"
                res.fail(sig, f"{label}: {got[1]}")
            elif ref[1] in SURFACING and not isinstance(got[1], EXC[ref[1]]):
                res.fail("failure-replaced", f"{label}: {got[1]!r} instead of {ref[1]}")
            elif ref[1] == "ValueError" and not isinstance(got[1], ValueError):
                res.fail("not-refused-as-out-of-range", f"{label}: {got[1]!r}")
            continue
        if got[0] == "err":
            res.fail("refused", f"{label}: {got[1]!r}")
            continue
        if ref[1]:
            res.nontrivial = True
        d = wx.same_weather(got[1], ref[1])
        if d:
            res.fail("wrong-weather", f"{label}: {d}")
        if list(given) != list(point):
            res.fail("query-changed", f"{given} {point}")
        if q["spoil"] and isinstance(got[1], dict):
            for k in list(got[1]):
                got[1][k] = -12345.0
            got[1]["spoiled"] = 1
