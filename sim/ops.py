"""Catalogue of operations of the library for aliasing, interruption and interleaving
checks. An operation is (spec as JSON) -> fresh inputs -> result; the result has a
picture (comparable JSON) and views (what it hands out about itself)."""
import datetime as dt
import json
import math
import os

from sim import diagrams as dg, pipes, weather as wx
from sim.props import c17

OPS = {}


class Op:
    def __init__(self, gen, prepare, call, views=None, own=True, keep=()):
        self.gen, self.prepare, self.call = gen, prepare, call
        self.views = views or (lambda r: {})
        self.own = own  # the result shares nothing with the inputs
        self.keep = set(keep)  # inputs that the operation is meant to change


def op(name, gen, prepare, call, **kw):
    OPS[name] = Op(gen, prepare, call, **kw)


def form(rng):
    return rng.choice(["list", "array", "array", "tuple", "array"])


def shaped(values, how):
    """A nested list as the caller may hold it"""
    import numpy as np

    if how == "array":
        return np.array(values, dtype=float) if values else np.empty((0, 3))
    if how == "tuple":
        return tuple(tuple(v) if isinstance(v, list) else v for v in values)
    return json.loads(json.dumps(values))


# ------------------------------------------------------------ pictures etc.
def picture(x, depth=0):
    import numpy as np
    import pandas
    from hrosailing.core.data import Data, WeightedPoints
    from hrosailing.models.weather_model import GriddedWeatherModel
    from hrosailing.polardiagram import PolarDiagram

    if isinstance(x, PolarDiagram):
        return pipes.canon_diagram(x)
    if isinstance(x, GriddedWeatherModel):
        return wx.content(x)
    if isinstance(x, Data):
        return {"cols": {k: [pipes.canon_value(v) for v in x[k]] for k in x.keys()},
                "types": {k: str(x.type(k)) for k in x.keys()}, "n": x.n_rows}
    if isinstance(x, WeightedPoints):
        return {"data": picture(x.data), "weights": picture(x.weights)}
    if isinstance(x, np.ndarray):
        return ["array", list(x.shape), [pipes.canon_value(v) for v in x.ravel().tolist()]]
    if isinstance(x, pandas.DataFrame):
        return {str(c): picture(list(x[c])) for c in x.columns}
    if isinstance(x, dict):
        return {str(k): picture(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [picture(v) for v in x]
    if isinstance(x, (str, bytes, bool, int, float, complex, type(None), dt.datetime, dt.date, dt.time,
                      dt.timedelta, np.generic)):
        return pipes.canon_value(x)
    if hasattr(x, "_asdict"):
        return picture(x._asdict())
    if type(x).__module__.startswith("hrosailing") and hasattr(x, "__dict__") and depth < 3:
        return {"<object>": {k: picture(v, depth + 1) for k, v in sorted(vars(x).items()) if k != "_sim"}}
    return f"<{type(x).__name__}>"


JUNK = -7.25


def scramble(x, seen=None):
    """Change everything in place that a caller can change in place."""
    import numpy as np
    import pandas
    from hrosailing.core.data import Data, WeightedPoints

    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                scramble(v, seen)
        if x.flags.writeable:
            try:
                x[...] = JUNK
            except (TypeError, ValueError):
                x[...] = x[::-1].copy()
    elif isinstance(x, pandas.DataFrame):
        for c in range(x.shape[1]):
            for r in range(x.shape[0]):
                x.iat[r, c] = None
    elif isinstance(x, Data):
        for k in x.keys():
            x[k][:] = [None] * len(x[k])
            x[k].append(JUNK)
    elif isinstance(x, WeightedPoints):
        scramble(x.data, seen)
        scramble(x.weights, seen)
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, seen)
        x.clear()
        x["junk"] = JUNK
    elif isinstance(x, list):
        for v in x:
            scramble(v, seen)
        x.reverse()
        x.append(JUNK)
        if len(x) > 1:
            del x[0]
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, seen)


# --------------------------------------------------------------- diagrams
def gen_table(rng):
    s = dg.gen_table(rng, 5, 8, nasty=False)
    s["forms"] = [form(rng) for _ in range(3)]
    return s


def prep_table(s):
    return {"ws": shaped(s["ws"], s["forms"][0]), "wa": shaped(s["wa"], s["forms"][1]),
            "bsps": shaped(s["bsps"], s["forms"][2])}


def make_table(i):
    from hrosailing.polardiagram import PolarDiagramTable

    return PolarDiagramTable(ws_resolution=i["ws"], wa_resolution=i["wa"], bsps=i["bsps"])


def diagram_views(pd):
    from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud

    out = {"default_slices": lambda: pd.default_slices, "get_slices": lambda: pd.get_slices([4.0, 9.0], full_info=True)}
    if isinstance(pd, PolarDiagramMultiSails):
        out.update({"sails": lambda: pd.sails, "diagrams": lambda: pd.diagrams})
    elif isinstance(pd, PolarDiagramCurve):
        # the points of a curve are computed anew for hundreds of winds each time
        out.update({"parameters": lambda: pd.parameters})
    else:
        out.update({"default_points": lambda: pd.default_points, "get_points": lambda: pd.get_points()})
        out.update({"wind_speeds": lambda: pd.wind_speeds, "wind_angles": lambda: pd.wind_angles,
                    "boat_speeds": lambda: pd.boat_speeds})
        if isinstance(pd, PolarDiagramPointcloud):
            out["points"] = lambda: pd.points
    return out


op("table", gen_table, prep_table, make_table, views=diagram_views)


def gen_default_table(rng):
    return {"ws": rng.choice([None, 2, [4.0, 6.0, 9.0]]), "wa": rng.choice([None, 45, [30.0, 90.0]]), "how": form(rng)}


def prep_default_table(s):
    return {k: shaped(s[k], s["how"]) if isinstance(s[k], list) else s[k] for k in ("ws", "wa")} | {"bsps": None}


op("table-default", gen_default_table, prep_default_table, make_table, views=diagram_views)


def gen_cloud(rng):
    s = dg.gen_cloud(rng, 12, 1, nasty=False)
    s["pts"] = [[abs(a), b, abs(c)] for a, b, c in s["pts"]]
    return {**s, "how": form(rng), "apparent": rng.random() < 0.3}


def make_cloud(i):
    from hrosailing.polardiagram import PolarDiagramPointcloud

    return PolarDiagramPointcloud(i["pts"], apparent_wind=i["apparent"])


op("cloud", gen_cloud, lambda s: {"pts": shaped(s["pts"], s["how"]), "apparent": s["apparent"]}, make_cloud,
   views=diagram_views)


def gen_multi(rng):
    s = dg.gen_multi(rng, nasty=False)
    return s


def make_multi(i):
    from hrosailing.polardiagram import PolarDiagramMultiSails

    return PolarDiagramMultiSails(i["pds"], i["sails"])


op("multi", gen_multi, lambda s: {"pds": [dg.build(p) for p in s["pds"]],
                                  "sails": None if s["sails"] is None else list(s["sails"])}, make_multi,
   views=diagram_views)


def gen_diagram(rng, kinds=("table", "cloud", "curve", "multi")):
    s = dg.gen_any(rng, nasty=False, kinds=kinds)
    if s["kind"] == "cloud":
        s["pts"] = [[abs(a) + 0.5, b, abs(c)] for a, b, c in s["pts"]] + [[1.0, 20.0, 2.0]]
    return s


op("curve", lambda rng: dg.gen_curve(rng, False), lambda s: {"pd": dg.build(s)}, lambda i: i["pd"],
   views=diagram_views, own=False)
op("symmetrize", gen_diagram, lambda s: {"pd": dg.build(s)}, lambda i: i["pd"].symmetrize(), views=diagram_views)


def gen_change(rng):
    s = dg.gen_table(rng, 5, 8, nasty=False)
    ws = rng.sample(s["ws"], rng.randint(1, len(s["ws"])))
    wa = rng.sample(s["wa"], rng.randint(1, len(s["wa"])))
    new = [[round(rng.uniform(0, 20), 2) for _ in ws] for _ in wa]
    if len(ws) == 1 or len(wa) == 1:
        new = [x for row in new for x in row]
    if rng.random() < 0.15:
        new = new + [new[0]]
    return {"pd": s, "ws": ws, "wa": wa, "new": new, "forms": [form(rng) for _ in range(3)]}


def prep_change(s):
    return {"pd": dg.build(s["pd"]), "new": shaped(s["new"], s["forms"][0]),
            "ws": shaped(s["ws"], s["forms"][1]), "wa": shaped([a % 360 for a in s["wa"]], s["forms"][2])}


def do_change(i):
    i["pd"].change_entries(i["new"], ws=i["ws"], wa=i["wa"])
    return i["pd"]


op("change_entries", gen_change, prep_change, do_change, views=diagram_views, keep=["pd"])


def gen_add(rng):
    return {"pd": gen_diagram(rng, ("cloud",)), "new": gen_cloud(rng)}


def do_add(i):
    i["pd"].add_points(i["new"], apparent_wind=i["apparent"])
    return i["pd"]


op("add_points", gen_add, lambda s: {"pd": dg.build(s["pd"]), "new": shaped(s["new"]["pts"], s["new"]["how"]),
                                     "apparent": s["new"]["apparent"]}, do_add, views=diagram_views, keep=["pd"])


def gen_slices(rng):
    return {"pd": gen_diagram(rng), "ws": rng.choice([None, 8, [4.0, 8.0, 12.0], [6.0]]),
            "n": rng.choice([None, None, 1, 3]), "full": rng.random() < 0.5, "how": form(rng)}


op("get_slices", gen_slices,
   lambda s: {"pd": dg.build(s["pd"]), "ws": shaped(s["ws"], s["how"]) if isinstance(s["ws"], list) else s["ws"],
              "n": s["n"] if isinstance(s["ws"], list) else None, "full": s["full"]},
   lambda i: i["pd"].get_slices(i["ws"], n_steps=i["n"], full_info=i["full"]))


def gen_wind(rng):
    n = rng.randint(1, 6)
    pts = [[round(rng.uniform(1, 20), 1), float(rng.randrange(0, 360, 10))] for _ in range(n)]
    return {"pd": gen_diagram(rng, ("table", "curve")), "wind": pts, "how": rng.choice(["rows", "tuple", "cols"])}


def prep_wind(s):
    import numpy as np

    wind = np.array(s["wind"])
    if s["how"] == "tuple":
        wind = (wind[:, 0].copy(), wind[:, 1].copy())
    elif s["how"] == "cols" and len(s["wind"]) != 2:
        wind = wind.T.copy()
    return {"pd": dg.build(s["pd"]), "wind": wind}


op("get_points", gen_wind, prep_wind, lambda i: i["pd"].get_points(i["wind"]))
op("call", gen_wind, lambda s: {"pd": dg.build(s["pd"]), "wind": s["wind"]},
   lambda i: [float(i["pd"](ws, wa)) for ws, wa in i["wind"]])


def gen_save(rng):
    return {"pd": gen_diagram(rng), "fmt": rng.choice(["hro", "hro", "array", "orc", "opencpn"])}


def do_save(i):
    from hrosailing.polardiagram import PolarDiagramTable, from_csv

    path = os.path.join(i["scratch"], "d.csv")
    if isinstance(i["pd"], PolarDiagramTable):
        i["pd"].to_csv(path, fmt=i["fmt"])
        return from_csv(path, fmt=i["fmt"])
    i["pd"].to_csv(path)
    return from_csv(path)


op("save", gen_save, lambda s: {"pd": dg.build(s["pd"]), "fmt": s["fmt"], "scratch": None}, do_save, views=diagram_views)


# ---------------------------------------------------------------- weather
def gen_grid(rng):
    s = wx.gen_spec(rng)
    return {**s, "forms": [form(rng) for _ in range(4)]}


def prep_grid(s):
    import numpy as np

    f = s["forms"]
    data = np.array(s["data"], dtype=float) if f[0] == "array" else json.loads(json.dumps(s["data"]))
    times = wx.times(s)
    return {"data": data, "times": np.array(times, dtype=object) if f[3] == "array" else list(times),
            "lats": shaped(s["lats"], f[1]), "lons": shaped(s["lons"], f[2]), "attrs": list(s["attrs"])}


def make_grid(i):
    from hrosailing.models import GriddedWeatherModel

    return GriddedWeatherModel(data=i["data"], times=i["times"], lats=i["lats"], lons=i["lons"], attrs=i["attrs"])


op("grid", gen_grid, prep_grid, make_grid,
   views=lambda m: {"grid": lambda: m.grid, "data": lambda: m.data, "attrs": lambda: m.attrs,
                    "get_weather": lambda: m.get_weather((m.grid[0][0], m.grid[1][0], m.grid[2][0]))})


def gen_query(rng):
    s = wx.gen_spec(rng)
    return {"spec": s, "points": [wx.gen_point(rng, s) for _ in range(rng.randint(1, 3))],
            "how": rng.choice(["list", "tuple"]), "multi": rng.random() < 0.3}


def prep_query(s):
    pts = [wx.point_of(p) for p in s["points"]]
    m = wx.build(s["spec"])
    if s["multi"]:
        from hrosailing.models import MultiWeatherModel

        m = MultiWeatherModel(m, wx.build(s["spec"]))
    return {"model": m, "points": [list(p) if s["how"] == "list" else p for p in pts]}


op("get_weather", gen_query, prep_query, lambda i: [dict(i["model"].get_weather(p)) for p in i["points"]])


def do_weather_file(i):
    from hrosailing.models import GriddedWeatherModel

    path = os.path.join(i["scratch"], "w.json")
    i["model"].to_file(path)
    return GriddedWeatherModel.from_file(path)


op("weather-file", gen_grid, lambda s: {"model": wx.build(s), "scratch": None}, do_weather_file)


# ------------------------------------------------------------- conversion
def gen_convert(rng):
    n = rng.randint(1, 6)
    return {"rows": [[round(rng.uniform(1, 20), 1), float(rng.randrange(-90, 400, 10)), round(rng.uniform(0.1, 9), 1)]
                     for _ in range(n)], "how": form(rng), "to": rng.choice(["true", "apparent"])}


def do_convert(i):
    from hrosailing.core.computing import convert_apparent_wind_to_true, convert_true_wind_to_apparent

    return (convert_apparent_wind_to_true if i["to"] == "true" else convert_true_wind_to_apparent)(i["rows"])


op("convert", gen_convert, lambda s: {"rows": shaped(s["rows"], s["how"]), "to": s["to"]}, do_convert)


def gen_globe(rng):
    n = rng.randint(2, 5)
    return {"pts": [[round(rng.uniform(-60, 60), 2), round(rng.uniform(-170, 170), 2)] for _ in range(n)],
            "globe": rng.choice(["flat", "sphere"]), "what": rng.choice(["project", "lat_lon", "distance", "path"]),
            "mp": rng.choice([None, [40.0, 5.0]])}


def prep_globe(s):
    import numpy as np
    from hrosailing.models import FlatMercatorProjection, SphericalGlobe

    mp = None if s["mp"] is None else np.array(s["mp"])
    g = SphericalGlobe() if s["globe"] == "sphere" else FlatMercatorProjection(*([] if mp is None else [mp]))
    pts = np.array(s["pts"])
    if s["what"] == "lat_lon":
        pts = np.array(g.project(pts), dtype=float)
    return {"globe": g, "pts": pts, "what": s["what"], "mp": mp}


def do_globe(i):
    g, p = i["globe"], i["pts"]
    if i["what"] == "distance":
        return g.distance(p[0], p[1])
    if i["what"] == "path":
        return g.shortest_path(p[0], p[1], res=7)
    return getattr(g, i["what"])(p)


op("globe", gen_globe, prep_globe, do_globe)


# ---------------------------------------------------------------- routing
class Wind:
    """Constant or varying wind; hands out its own dict"""

    def __init__(self, u, v, cut):
        self.u, self.v, self.cut = u, v, cut
        self.shared = {}

    def get_weather(self, point):
        if self.cut is not None and float(point[1]) > self.cut:
            raise ValueError("no weather")
        self.shared.update({"UGRID": self.u, "VGRID": self.v, "HDT": 0.0})
        return self.shared


class Damping:
    """Influence model that reads what it is given"""

    def fit(self, data):
        return {}

    def remove_influence(self, data):
        return data

    def add_influence(self, pd, influence_data):
        import numpy as np

        if influence_data is None:
            raise ValueError("no data")
        if "TWS" not in influence_data:
            n = len(next(iter(influence_data.values())))
            return np.full(n, 3.0)
        ws = np.array(influence_data["TWS"], dtype=float)
        wa = np.array(influence_data["TWA"], dtype=float)
        return np.array([0.9 * pd(float(np.ravel(a)[0]), float(b)) for a, b in zip(ws, wa)])


def full_table(rng):
    ws = sorted(rng.sample(range(2, 26, 2), rng.randint(2, 4)))
    wa = list(range(0, 360, rng.choice([30, 45, 60])))
    return {"kind": "table", "ws": [float(w) for w in ws], "wa": [float(a) for a in wa],
            "bsps": [[round(w * 0.3 * (1.2 - math.cos(math.radians(a))) + 0.2, 3) for w in ws] for a in wa]}


def gen_course(rng):
    return {"pd": full_table(rng), "what": rng.choice(["convex", "convex", "cruise", "cost", "isochrone"]),
            "ws": rng.choice([6.0, 10.0]), "dir": float(rng.randrange(0, 360, 15)),
            "im": rng.random() < 0.4, "start": [round(rng.uniform(-30, 30), 2), round(rng.uniform(-30, 30), 2)],
            "step": [0.05, rng.choice([0.05, -0.1, 0.0])], "fmt": rng.choice(["ws_wan", "ws_wa_hdt", "uv_grd"]),
            "cut": rng.choice([None, None, 0.02]), "listy": rng.random() < 0.5}


def prep_course(s):
    start = list(s["start"])
    end = [start[0] + s["step"][0], start[1] + s["step"][1]]
    wind = {"ws_wan": [s["ws"], s["dir"]], "ws_wa_hdt": [s["ws"], s["dir"], 45.0],
            "uv_grd": [3.0, 4.0]}[s["fmt"]]
    t = list if s["listy"] else tuple
    return {"pd": dg.build(s["pd"]), "ws": s["ws"], "dir": s["dir"], "start": t(start), "end": t(end),
            "wind": t(wind), "fmt": s["fmt"], "im": Damping() if s["im"] else None,
            "influence_data": {"temp": 4.0} if s["im"] else None,
            "wm": Wind(3.0, 4.0, None if s["cut"] is None else start[0] + s["cut"]),
            "ivp_kwargs": {"rtol": 1e-3}, "what": s["what"], "time": dt.datetime(2020, 5, 1, 12)}


def do_course(i):
    from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone

    if i["what"] == "convex":
        kw = {}
        if i["im"] is not None:
            _, slices, _ = i["pd"].get_slices(i["ws"], full_info=True)
            n = slices[0].shape[1]
            i["influence_data"].clear()
            i["influence_data"]["temp"] = [4.0] * n
            kw = {"im": i["im"], "influence_data": i["influence_data"]}
        return [str(d) for d in convex_direction(i["pd"], i["ws"], i["dir"], **kw)]
    if i["what"] == "cruise":
        return cruise(i["pd"], i["start"], i["end"], i["wind"], wind_fmt=i["fmt"], im=i["im"],
                      influence_data=i["influence_data"])
    if i["what"] == "cost":
        return float(cost_cruise(i["pd"], i["start"], i["end"], i["time"], wm=i["wm"],
                                 **i["ivp_kwargs"]))
    return isochrone(i["pd"], i["start"], i["time"], i["dir"], wm=i["wm"], total_time=0.5)


op("course", gen_course, prep_course, do_course)


# ------------------------------------------------------------- data tables
def gen_source(rng):
    return pipes.gen_source(rng, rng.choice([1, 2, 5, 9]), 0, False, rng.random() < 0.5, "BSP", rng.random() < 0.3)


def gen_data(rng):
    return {"a": gen_source(rng), "b": gen_source(rng),
            "what": rng.choice(["update", "update-data", "from_dict", "concatenate", "extend", "mask", "get_slice",
                                "filter_types", "update-row"]),
            "how": rng.choice(["list", "array"])}


def prep_data(s):
    import numpy as np

    i = {"what": s["what"], "table": c17.as_data(s["a"]), "new": pipes.table(s["b"])}
    if s["what"] in ("update-data", "concatenate"):
        i["new"] = c17.as_data(s["b"])
    elif s["what"] == "update-row":
        i["new"] = {k: v[0] for k, v in i["new"].items()}
    n = i["table"].n_rows
    mask = [k % 2 == 0 for k in range(n)]
    i["mask"] = np.array(mask) if s["how"] == "array" else mask
    i["keys"] = ["TWS", "lat"]
    i["types"] = [float]
    return i


def do_data(i):
    from hrosailing.core.data import Data

    d, w = i["table"], i["what"]
    if w.startswith("update"):
        d.update(i["new"])
    elif w == "extend":
        for k, v in i["new"].items():
            d.extend(k, v)
        d.fill()
    elif w == "from_dict":
        return Data.from_dict(i["new"])
    elif w == "concatenate":
        return Data.concatenate([d, i["new"]])
    elif w == "mask":
        return d[i["mask"]]
    elif w == "get_slice":
        return d.get_slice(i["keys"])
    else:
        d.filter_types(i["types"])
    return d


def data_views(d):
    return {"keys": d.keys, "rows": lambda: list(d.rows()), "row lists": lambda: list(d.rows(return_type=list)),
            "row": lambda: d[0] if d.n_rows else {}, "mask": lambda: d[[True] * d.n_rows],
            "get_slice": lambda: d.get_slice(d.keys()), "numerical": lambda: d.numerical}


op("data", gen_data, prep_data, do_data, views=data_views, keep=["table"])


def gen_weighted(rng):
    return {"a": c17.gen_points(rng, rng.randint(1, 6)), "b": c17.gen_points(rng, rng.randint(1, 6)),
            "what": rng.choice(["extend", "mask"])}


def do_weighted(i):
    if i["what"] == "mask":
        return i["a"][i["mask"]]
    i["a"].extend(i["b"])
    return i["a"]


def prep_weighted(s):
    import numpy as np

    a = c17.weighted({"pts": s["a"]})
    return {"a": a, "b": c17.weighted({"pts": s["b"]}), "what": s["what"],
            "held": {"data": a.data, "weights": a.weights},
            "mask": np.array([k % 2 == 0 for k in range(len(s["a"]))])}


op("weighted", gen_weighted, prep_weighted, do_weighted, keep=["a"])


# ------------------------------------------------------------- components
def gen_component(rng):
    layout = rng.choice(c17.LINK)
    kind, spec = c17.gen_component(rng, layout)
    while kind in ("handler", "qa") and rng.random() < 0.5:
        kind, spec = c17.gen_component(rng, layout)
    u = c17.gen_use(rng, kind, spec, layout)
    inner = c17.sites(kind, spec)
    if inner and rng.random() < 0.4:
        u["faults"] = [[rng.choice(inner), rng.choice([1, 1, 2, 5]), "pre", rng.choice(sorted(pipes.EXCEPTIONS))]]
    return json.loads(json.dumps({"kind": kind, "spec": spec, "use": u}))


def prep_component(s):
    kind, spec, u = s["kind"], s["spec"], s["use"]
    plan = pipes.FaultPlan()
    i = {"component": c17.make(kind, spec, plan), "plan": plan, "s": s}
    plan.arm(u["faults"])
    if kind == "handler":
        if spec[0] == "array":
            i["data"] = None if u["as"] == "nothing" else pipes.make_input(
                u["table"], "frame" if u["as"] == "frame" else "array", "", "x")
        else:
            i["data"] = "file"
    elif "table" in u:
        i["data"] = c17.as_data(u["table"])
        if kind == "influence":
            i["other"] = c17.as_data(u["other"])
    elif kind == "variable":
        i["data"] = None
    elif kind == "filter":
        import numpy as np

        i["data"] = np.array(u["weights"], dtype=float)
    else:
        if kind in ("interp", "injector", "extension"):
            i["data"] = c17.weighted(u)
            # the injector and extensions are given weighted points as holders of arrays
            i["held"] = {"data": i["data"].data, "weights": i["data"].weights}
        else:
            i["data"] = c17.points(u)[0]
        i["grid"] = list(u["grid"])
        if kind == "interp":
            import numpy as np

            i["grid"] = np.array(i["grid"])
        if kind == "qa":
            i["pd"] = dg.build(u["pd"])
    return i


def do_component(i):
    kind, spec, u = i["s"]["kind"], i["s"]["spec"], i["s"]["use"]
    c, d = i["component"], i["data"]
    pipes.seed_random(u["seed"])
    out = run_component(i, kind, spec, u, c, d)
    return [out, c.get_latest_statistics() if hasattr(c, "get_latest_statistics") else None]


def run_component(i, kind, spec, u, c, d):
    if kind == "handler":
        if d == "file" if isinstance(d, str) else False:
            path = os.path.join(i["scratch"], "log")
            with open(path, "w", encoding="utf-8") as f:
                f.write(u["text"] or "")
            d = path
        return c.handle(d)
    if kind == "influence":
        out = []
        if "fit" in u["op"]:
            out.append(c.fit(d))
        if "remove" in u["op"]:
            out.append(c.remove_influence(i["other"]))
        if "add" in u["op"]:
            from hrosailing.polardiagram import PolarDiagramTable

            out.append(c.add_influence(PolarDiagramTable(), i["other"]))
        return out
    if kind == "variable":
        return c17.picture(c17.operate_variable(c, u))
    if kind == "sampler":
        return c.sample(d[:, :2] if d.ndim == 2 else d)
    if kind == "nhood":
        return c.is_contained_in(d[:, :2] if d.ndim == 2 and d.shape[1] > 1 else d)
    if kind == "regressor":
        c.fit(d)
        return list(c.optimal_params)
    if kind == "interp":
        return c.interpolate(d, i["grid"])
    if kind == "qa":
        return c.check(i["pd"], d)
    name = {"imputator": "impute", "smoother": "smooth", "expander": "expand", "weigher": "weigh",
            "filter": "filter", "injector": "inject", "extension": "process"}[kind]
    return getattr(c, name)(d)


op("component", gen_component, prep_component, do_component)


# --------------------------------------------------------------- pipelines
def gen_pipeline(rng):
    cfg = pipes.gen_config(rng)
    if cfg["data_handler"][1] not in ("array", "frame"):
        cfg["data_handler"][1] = "array"
    call = pipes.gen_call(rng, cfg, size=rng.choice([4, 8, 12]))
    return json.loads(json.dumps({"cfg": cfg, "call": call, "seed": rng.randrange(5),
                                  "faults": pipes.gen_faults(rng, cfg) if rng.random() < 0.3 else []}))


def prep_pipeline(s):
    plan = pipes.FaultPlan()
    p = pipes.build(s["cfg"], plan)
    i = {"pipeline": p, "plan": plan, "s": s, "train": pipes.make_inputs(s["call"]["train"], s["cfg"], "", "a"),
         "test": pipes.make_inputs(s["call"]["test"], s["cfg"], "", "b"), "flags": dict(s["call"]["flags"])}
    return i


def do_pipeline(i):
    s = i["s"]
    pipes.seed_random(s["seed"])
    i["plan"].arm(s["faults"])
    out = i["pipeline"](i["train"], i["test"], **i["flags"])
    for st in (out.training_statistics, out.test_statistics):
        if isinstance(st.quality_assurance, dict):
            st.quality_assurance.pop("execution time", None)
    return out


op("pipeline", gen_pipeline, prep_pipeline, do_pipeline)


# ----------------------------------------------------------------- plotting
def gen_plot(rng):
    pd = rng.choice([full_table(rng), full_table(rng), dg.gen_curve(rng, False)])
    return {"pd": pd,
            "what": rng.choice(["plot_polar", "plot_flat", "scatter_polar", "scatter_flat", "plot_color_gradient",
                                "plot_3d", "scatter_3d"]),
            "ws": rng.choice([[6.0, 8.0, 10.0], [6.0, 8.0]] if pd["kind"] == "curve" else [None, [6.0, 8.0, 10.0], 8.0]), "n": rng.choice([None, 1]),
            "colors": rng.choice([["green", "red"], ["green", "red", "blue"], [[8.0, "red"], [6.0, "blue"]]]),
            "legend": rng.random() < 0.6, "hull": rng.random() < 0.3}


def prep_plot(s):
    i = {"pd": dg.build(s["pd"]), "what": s["what"], "ws": s["ws"], "n": s["n"] if isinstance(s["ws"], list) else None,
         "colors": [tuple(c) if isinstance(c, list) else c for c in s["colors"]],
         "legend_kw": {"orientation": "horizontal"} if s["what"] == "plot_color_gradient" else {}, "legend": s["legend"], "hull": s["hull"]}
    return i


def do_plot(i):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from hrosailing import plotting

    fn = getattr(plotting, i["what"])
    kw = {}
    if i["what"].endswith(("polar", "flat")):
        kw = {"ws": i["ws"], "n_steps": i["n"], "colors": i["colors"], "show_legend": i["legend"],
              "legend_kw": i["legend_kw"], "use_convex_hull": i["hull"]}
    try:
        fn(i["pd"], **kw)
    finally:
        plt.close("all")
    return None


op("plot", gen_plot, prep_plot, do_plot)
