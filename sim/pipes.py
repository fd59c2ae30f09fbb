"""Generated polar pipelines: JSON configurations, data sources, calls, faults that any
component can be made to meet, and a canonical form of what a run returned."""
import datetime as dt
import math
import os
import re

from sim import diagrams as dg, logs, weather as wx
from sim.core import said

FLAGS = ["smoothing", "pre_expander_weighing", "pre_expander_filtering",
         "pre_influence_weighing", "pre_influence_filtering", "post_weighing",
         "post_filtering", "injecting", "testing"]
ALIASES = {"pre_influence_weighing": "pre_weighing", "pre_influence_filtering": "pre_filtering",
           "post_weighing": "weighing", "post_filtering": "filtering"}
COMPONENT_ALIASES = {"post_filter": "filter", "post_weigher": "weigher",
                     "pre_influence_filter": "pre_filter", "pre_influence_weigher": "pre_weigher"}
METHODS = {"data_handler": ["handle"], "imputator": ["impute"], "smoother": ["smooth"],
           "pre_expander_weigher": ["weigh"], "pre_expander_filter": ["filter"],
           "expander": ["expand"], "pre_influence_weigher": ["weigh"],
           "pre_influence_filter": ["filter"], "influence_model": ["fit", "remove_influence"],
           "post_weigher": ["weigh"], "post_filter": ["filter"], "injector": ["inject"],
           "extension": ["process"], "quality_assurance": ["check"]}
EXCEPTIONS = {"RuntimeError": RuntimeError, "ValueError": ValueError, "KeyError": KeyError,
              "OSError": OSError, "MemoryError": MemoryError, "TypeError": TypeError,
              "ZeroDivisionError": ZeroDivisionError, "IndexError": IndexError,
              "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt}


# ------------------------------------------------------------- generation
def gen_weigher(rng, data, depth=0, names=("TWS", "TWA", "BSP")):
    """data: True if the weigher is applied to Data, False for (n, 3)-arrays"""
    r = rng.random()
    ws, wa, bsp = names
    if r < 0.08:
        return ["one"]
    if r < 0.4:
        dims = rng.choice([None, [ws, wa, bsp], [bsp, ws], [wa, bsp, "lat"]]) if data else None
        return ["mean", rng.choice([0.05, 0.3, 1, 30]), dims, rng.random() < 0.3 and (not data or dims is not None)]
    if r < 0.65:
        dims = rng.choice([[ws, wa, bsp], [wa, ws], [bsp, wa, ws]]) if data else None
        return ["member", rng.choice([0.05, 0.3, 2, 30]), rng.choice([0, 0.5, 5]), dims, rng.random() < 0.3 or data]
    if r < 0.78 and data:
        attrs = rng.sample([ws, bsp, wa], rng.randint(1, 2))
        return ["fluct", attrs, rng.choice([10, 120, [30, 30]]), [rng.choice([0.5, 3, 100]) for _ in attrs]]
    if r < 0.9:
        key = rng.choice([bsp, ws]) if data else rng.choice([0, 2])
        return ["fuzzy", key, rng.uniform(0, 15), rng.choice([None, 2]), rng.choice(["lt", "gt", "eq", "not"])]
    if depth == 0:
        if rng.random() < 0.5:
            return [rng.choice(["sum", "prod"]), gen_weigher(rng, data, 1, names), gen_weigher(rng, data, 1, names)]
        return ["scale", gen_weigher(rng, data, 1, names), rng.choice([0.5, 2])]
    return ["one"]


def gen_filter(rng):
    if rng.random() < 0.75:
        return ["quantile", rng.choice([0, 0, 10, 25, 50])]
    return ["bound", rng.choice([-1000, 0, 0.1]), 1000]


def gen_nhood(rng):
    return rng.choice([["ball", 1], ["ball", 0.05], ["ball", 30], ["scaling", rng.choice([1, 3])],
                       ["cuboid"], ["polytope"], ["ellipsoid"]])


def gen_interp(rng):
    return rng.choice([["idw", 2]] * 3 + [["idw", 1], ["mean", 50], ["mean", 10], ["improved"], ["shepard"]])


def gen_resolution(rng):
    r = rng.random()
    if r < 0.2:
        return "min_max"
    if r < 0.35:
        return "auto"
    if r < 0.45:
        return None
    if r < 0.65:
        return [rng.choice([5, 10]), rng.choice([45, 60])]
    return [sorted(rng.sample(range(1, 25), rng.randint(1, 4))), sorted(rng.sample(range(0, 360, 5), rng.randint(1, 6)))]


def gen_extension(rng):
    r = rng.random()
    if r < 0.5:
        return ["table", gen_resolution(rng), gen_nhood(rng), gen_interp(rng), rng.random() < 0.3]
    if r < 0.72:
        reg = rng.choice(["lsq", "odr"])
        return ["curve", reg, rng.choice(["linear", "quad"]), rng.random() < 0.3]
    return ["cloud", rng.choice(["uniform", "uniform", "fibonacci", "archimedean"]), rng.randint(1, 12),
            gen_nhood(rng), gen_interp(rng)]


def gen_config(rng, heavy=True, expander=True):
    handler = rng.choice(["array", "array", "array", "csv", "frame"])
    layout = rng.choice(["true"] * 6 + ["apparent", "ground"])
    names = {"true": ("TWS", "TWA", "BSP"), "apparent": ("AWS", "AWA", "BSP"),
             "ground": ("TWS", "TWA", "SOG")}[layout]
    cfg = {
        "layout": layout,
        "data_handler": [rng.choice(["one", "one", "list"]), handler],
        "imputator": rng.choice([["local", rng.choice([30, 120, 3600]), rng.choice(["default", "affine"])],
                                 ["local", 120, "default"], ["remove"]]),
        "smoother": rng.choice([["lazy"], ["affine", rng.choice([1, 30])]]),
        "pre_expander_weigher": gen_weigher(rng, True, 0, names), "pre_expander_filter": gen_filter(rng),
        "pre_influence_weigher": gen_weigher(rng, True, 0, names), "pre_influence_filter": gen_filter(rng),
        "post_weigher": gen_weigher(rng, False), "post_filter": gen_filter(rng),
        "expander": ["lazy"], "influence_model": ["identity"],
        "injector": ["zero", rng.choice([0, 1, 3, 10])],
        "extension": gen_extension(rng),
        "quality_assurance": [rng.choice(["minimal", "conforming"])],
        "alias": rng.random() < 0.3,
    }
    if expander and rng.random() < 0.35:
        cfg["expander"] = ["weather", rng.choice(["delete", "ignore"])]
    if heavy and layout != "apparent" and rng.random() < 0.15:
        cfg["influence_model"] = ["angle", rng.choice([10, 30])]
    if rng.random() < 0.25:
        # leave some components at their defaults
        for key in rng.sample(["imputator", "smoother", "pre_expander_weigher", "pre_expander_filter",
                               "expander", "pre_influence_weigher", "pre_influence_filter",
                               "influence_model", "post_weigher", "post_filter",
                               "quality_assurance"], rng.randint(1, 6)):
            cfg[key] = None
    return cfg


def gen_source(rng, n, tag0, apparent=False, lossy=True, speed="BSP", extra=False, nasty=True):
    """One data source: names, rows (time as ISO text), None where a value was lost."""
    t = dt.datetime(rng.randint(2000, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23))
    cols = (["AWS", "AWA"] if apparent else ["TWS", "TWA"]) + [speed, "lat", "lon", "tag", "datetime"]
    if extra:
        cols.insert(2, "temp")
    rows = []
    ws, wa = rng.uniform(4, 20), rng.uniform(30, 330)
    lat0, lon0 = rng.choice([(40, 5), (40, 5), (0, 0), (-0.02, 0.03)])
    for i in range(n):
        ws = max(0.5, ws + rng.uniform(-2, 2))
        wa = (wa + rng.uniform(-30, 30)) % 360
        bsp = abs(ws * 0.4 * math.sin(math.radians(wa) / 2)) + rng.uniform(0, 1)
        if nasty and i and rng.random() < 0.3:
            ws, bsp = rows[-1][0] or ws, bsp
        row = [round(ws, 2), round(wa, 1), round(bsp, 4) + 1e-6 * (tag0 + i),
               lat0 + 0.01 * i, lon0 - 0.01 * i, float(tag0 + i), t.isoformat()]
        if extra:
            row.insert(2, round(rng.uniform(5, 30), 1))
        if lossy and rng.random() < 0.15:
            j = rng.randrange(len(cols))
            if cols[j] != "tag":
                row[j] = None
        rows.append(row)
        t += dt.timedelta(seconds=rng.choice([1, 5, 5, 10, 30, 200] if nasty else [5]))
    order = list(range(len(cols)))
    if nasty:
        rng.shuffle(order)
    return {"cols": [cols[k] for k in order], "rows": [[r[k] for k in order] for r in rows]}


def gen_sources(rng, cfg, tag0=0, count=None, size=None):
    n = count or rng.choice([1, 1, 2, 3])
    apparent = cfg["layout"] == "apparent"
    out = []
    lossy = rng.random() < 0.6
    speed = "SOG" if cfg["layout"] == "ground" else "BSP"
    for _ in range(n):
        k = size or rng.choice([1, 4, 8, rng.randint(8, 25), rng.randint(8, 25)])
        out.append(gen_source(rng, k, tag0, apparent, lossy, speed, rng.random() < 0.2))
        tag0 += k
    if len(out) > 1 and rng.random() < 0.1:  # the same log is given once more
        out[-1] = dict(out[-2], again=True)
    return out


def gen_flags(rng):
    out = {}
    p = rng.choice([0.0, 0.2, 0.5])
    for f in FLAGS[:-1]:
        if rng.random() < p:
            out[ALIASES.get(f, f) if rng.random() < 0.4 else f] = rng.random() < 0.3
    return out


def gen_call(rng, cfg, size=None):
    call = {"train": gen_sources(rng, cfg, 0, size=size), "test": None, "flags": gen_flags(rng)}
    if rng.random() < 0.6:
        call["test"] = gen_sources(rng, cfg, 5000, size=size)
        if rng.random() < 0.2:
            call["flags"]["testing"] = False
    return call


# ---------------------------------------------------------------- faults
class FaultPlan:
    """Sites count their calls; armed faults raise at the n-th call of a site."""

    def __init__(self):
        self.faults = []
        self.calls = {}
        self.fired = []
        self.error = None

    def arm(self, faults):
        self.faults = [list(f) for f in faults or []]
        self.calls = {}
        self.fired = []

    def hit(self, site, when="pre"):
        if when == "pre":
            self.calls[site] = self.calls.get(site, 0) + 1
        for f in self.faults:
            if f[0] == site and f[1] == self.calls.get(site) and f[2] == when:
                self.fired.append(tuple(f))
                raise EXCEPTIONS[f[3]](f"injected into {site}")


def inner_sites(cfg):
    """Callbacks inside of components that this configuration uses"""
    text = str(cfg)
    out = []
    if any(w and w[0] in ("mean", "member") and w[-1] for w in
           [cfg.get(k) for k in ("pre_expander_weigher", "pre_influence_weigher", "post_weigher")]):
        out.append("norm")
    if cfg.get("imputator") and cfg["imputator"][-1] == "affine":
        out.append("fill")
    if cfg.get("expander") and cfg["expander"][0] == "weather":
        out.append("weather")
    if "'ball'" in text or "'scaling'" in text:
        out.append("nhood")
    if "'idw'" in text or "'improved'" in text or "'shepard'" in text:
        out.append("interp")
    if cfg["extension"][0] == "curve":
        # an exception inside of an ODRPACK callback crashes scipy's C code now and then
        out = [s for s in out if s in ("norm", "fill", "weather")]
        if cfg["extension"][1] == "lsq":
            out.append("model_func")
    return out


def gen_faults(rng, cfg):
    inner = inner_sites(cfg)
    if rng.random() < 0.6 or not inner:
        key = rng.choice(sorted(METHODS))
        site = f"{key}.{rng.choice(METHODS[key])}"
        kind = rng.choice(sorted(EXCEPTIONS))
        return [[site, rng.choice([1, 1, 1, 2, 2, 3]), rng.choice(["pre", "post"]), kind]]
    site = rng.choice(inner)
    kind = rng.choice([k for k in sorted(EXCEPTIONS) if k not in ("ValueError", "StopIteration", "TypeError")])
    return [[site, rng.choice([1, 1, 2, 3, 7, 20]), "pre", kind]]


# ----------------------------------------------------------- construction
def guarded(plan, site, fn):
    if plan is None:
        return fn

    def call(*args, **kwargs):
        plan.hit(site)
        return fn(*args, **kwargs)

    return call


class Hook:
    """What is hooked to one component object; copies of the object share it"""

    def __init__(self, key, plan, recorder):
        self.key, self.plan, self.recorder = key, plan, recorder

    def __deepcopy__(self, memo):
        return self


_HOOKED = {}  # components of one class stay components of one class


def hook(obj, key, plan=None, recorder=None):
    """Give one component object methods that count, record and fail on demand."""
    cls = type(obj)
    names = tuple(METHODS[key])
    if (cls, names) not in _HOOKED:
        body = {name: _wrapped(cls, name) for name in names}
        _HOOKED[cls, names] = type(cls.__name__, (cls,), {**body, "__module__": cls.__module__})
    obj.__class__ = _HOOKED[cls, names]
    obj._sim_hook = Hook(key, plan, recorder)
    return obj


def _wrapped(cls, name):
    def method(self, *args, **kwargs):
        plan, recorder = self._sim_hook.plan, self._sim_hook.recorder
        site = f"{self._sim_hook.key}.{name}"
        if plan is not None:
            try:
                plan.hit(site)
            except BaseException as exc:
                if recorder is not None:
                    recorder.raised(site, self, exc)
                raise
        before = recorder.before(site, self, args) if recorder is not None else None
        try:
            out = getattr(cls, name)(self, *args, **kwargs)
        except BaseException as exc:
            if recorder is not None:
                recorder.raised(site, self, exc)
            raise
        if recorder is not None:
            recorder.after(site, self, args, out, before)
        if plan is not None:
            try:
                plan.hit(site, "post")
            except BaseException as exc:
                if recorder is not None:
                    recorder.raised(site, self, exc)
                raise
        return out

    return method


def snap(x):
    """Deep, comparable picture of what a stage is given or returns"""
    import numpy as np
    from hrosailing.core.data import Data, WeightedPoints

    if isinstance(x, Data):
        return {"cols": {k: canon_value(list(x[k])) for k in x.keys()}, "n": x.n_rows}
    if isinstance(x, WeightedPoints):
        return {"data": snap(x.data), "weights": canon_value(np.asarray(x.weights, dtype=object))}
    if isinstance(x, np.ndarray):
        return canon_value(x)
    return canon_value(x) if isinstance(x, (list, tuple, dict, int, float, str, type(None))) else f"<{type(x).__name__}>"


class Recorder:
    """History of the calls of all stages of a pipeline"""

    def __init__(self, clock=None):
        self.events = []  # dicts: site, args (pictures), ids, out, out_id
        self.exceptions = []
        self.keep = []  # keeps objects alive so that ids stay unique
        self.clock = clock

    def before(self, site, comp, args):
        if self.clock is not None:
            self.clock(site)
        self.keep.append(args)
        return {"site": site, "args": [snap(a) for a in args], "ids": [id(a) for a in args]}

    def after(self, site, comp, args, out, before):
        self.keep.append(out)
        before["out"] = snap(out)
        before["out_id"] = id(out)
        stats = getattr(comp, "get_latest_statistics", None)
        before["stats"] = canon_value(stats()) if stats is not None else None
        self.events.append(before)

    def raised(self, site, comp, exc):
        self.exceptions.append((site, exc))


def make_weigher(spec, plan=None):
    import numpy as np
    import hrosailing.processing as pc

    kind = spec[0]
    if kind == "one":
        return pc.AllOneWeigher()
    if kind == "mean":
        norm = None
        if spec[3]:
            norm = guarded(plan, "norm", lambda pts: np.sqrt(np.sum(np.square(pts), axis=1)))
        return pc.CylindricMeanWeigher(radius=spec[1], norm=norm, dimensions=spec[2] and list(spec[2]))
    if kind == "member":
        norm = None
        if spec[4]:
            norm = guarded(plan, "norm", lambda pts: np.sqrt(np.sum(np.square(pts), axis=1)))
        return pc.CylindricMemberWeigher(radius=spec[1], length=spec[2], norm=norm,
                                         dimensions=spec[3] and list(spec[3]))
    if kind == "fluct":
        span = spec[2]
        span = (tuple(dt.timedelta(seconds=s) for s in span) if isinstance(span, list)
                else dt.timedelta(seconds=span))
        return pc.FluctuationWeigher(list(spec[1]), span, list(spec[3]))
    if kind == "fuzzy":
        x = pc.FuzzyVariable()
        v = x[spec[1]]
        if spec[3] is not None:
            v = v(spec[3])
        if spec[4] == "lt":
            f = v < spec[2]
        elif spec[4] == "gt":
            f = v > spec[2]
        elif spec[4] == "eq":
            f = (v < spec[2] + 1) & (v > spec[2] - 1)
        else:
            f = ~(v < spec[2])
        return pc.FuzzyWeigher(f)
    if kind == "sum":
        return make_weigher(spec[1], plan) + make_weigher(spec[2], plan)
    if kind == "prod":
        return make_weigher(spec[1], plan) * make_weigher(spec[2], plan)
    if kind == "scale":
        return make_weigher(spec[1], plan) * spec[2]
    raise ValueError(spec)


def make_filter(spec):
    import hrosailing.processing as pc

    return pc.QuantileFilter(spec[1]) if spec[0] == "quantile" else pc.BoundFilter(spec[1], spec[2])


def make_nhood(spec, plan=None):
    import numpy as np
    import hrosailing.processing as pc

    norm = guarded(plan, "nhood", lambda pts: np.sqrt(np.sum(np.square(np.atleast_2d(pts) * [0.05, 1 / 360]), axis=1)))
    kind = spec[0]
    if kind == "ball":
        return pc.Ball(norm=norm, radius=spec[1])
    if kind == "scaling":
        return pc.ScalingBall(spec[1], norm)
    if kind == "cuboid":
        return pc.Cuboid()
    if kind == "polytope":
        return pc.Polytope(np.array([[1.0, 0], [-1.0, 0], [0, 1.0], [0, -1.0]]), np.array([4.0, 4.0, 40.0, 40.0]))
    return pc.Ellipsoid()


def make_interp(spec, plan=None):
    import numpy as np
    import hrosailing.processing as pc

    def scaled(pts):
        pts = np.atleast_2d(pts)[:, :2]  # Shepard's slopes hand over three columns
        return np.sqrt(np.sum(np.square(pts * [0.05, 1 / 360]), axis=1))

    norm = guarded(plan, "interp", scaled)
    kind = spec[0]
    if kind == "idw":
        return pc.IDWInterpolator(spec[1], norm=norm)
    if kind == "mean":
        return pc.ArithmeticMeanInterpolator(params=(spec[1],))
    if kind == "improved":
        return pc.ImprovedIDWInterpolator(norm=norm)
    from hrosailing.processing.interpolator import ShepardInterpolator

    return ShepardInterpolator(pc.Ball(radius=1), norm=norm)


def model_function(kind):
    if kind == "linear":
        def linear(ws, wa, a, b):
            return a * ws + b * wa
        return linear, (1.0, 0.01)

    def quad(ws, wa, a, b, c):
        return a + b * ws + c * wa**2

    return quad, (1.0, 0.1, 1e-4)


def make_regressor(kind, model, plan=None):
    import functools
    import hrosailing.processing as pc

    func, init = model_function(model)
    f = func
    if plan is not None:
        f = functools.wraps(func)(guarded(plan, "model_func", func))
    if kind == "odr":
        return pc.ODRegressor(model_func=f, init_values=init, max_it=60)
    return pc.LeastSquareRegressor(f, init)


def make_sampler(kind, n):
    import hrosailing.processing as pc

    return {"uniform": pc.UniformRandomSampler, "fibonacci": pc.FibonacciSampler,
            "archimedean": pc.ArchimedeanSampler}[kind](n)


def make_extension(spec, plan=None):
    from hrosailing.pipeline import CurveExtension, PointcloudExtension, TableExtension

    if spec[0] == "table":
        res = tuple(spec[1]) if isinstance(spec[1], list) else spec[1]
        if spec[4]:
            return TableExtension(wind_resolution=res)
        return TableExtension(res, make_nhood(spec[2], plan), make_interp(spec[3], plan))
    if spec[0] == "curve":
        return CurveExtension(make_regressor(spec[1], spec[2], plan), radians=spec[3])
    return PointcloudExtension(make_sampler(spec[1], spec[2]), make_nhood(spec[3], plan), make_interp(spec[4], plan))


class SimWeather:
    """Weather provider: covers most of the area, its values encode the query."""

    def __init__(self, plan):
        self.plan = plan

    def get_weather(self, point):
        if self.plan is not None:
            self.plan.hit("weather")
        t, lat, lon = point
        if t is None or lat is None or lon is None or lat > 40.12:
            raise ValueError("no weather here")
        return {"air pressure": 1000 + lat, "water temp": 10 + lon, "TWS": 3.0}


def make_component(key, spec, plan=None):
    import hrosailing.models as mod
    import hrosailing.processing as pc
    from hrosailing.pipeline import (ComformingQualityAssurance, LazyExpander, MinimalQualityAssurance,
                                     WeatherExpander)

    if key.endswith("weigher"):
        return make_weigher(spec, plan)
    if key.endswith("filter"):
        return make_filter(spec)
    if key == "imputator":
        if spec[0] == "remove":
            return pc.RemoveOnlyImputator()
        kw = {"max_time_diff": dt.timedelta(seconds=spec[1])}
        if spec[2] == "affine":
            def between(name, left, right, mu):
                if isinstance(left, float):
                    return left + mu * (right - left)
                return left
            kw.update(fill_before=guarded(plan, "fill", lambda name, right, mu: right),
                      fill_between=guarded(plan, "fill", between),
                      fill_after=guarded(plan, "fill", lambda name, left, mu: left))
        return pc.FillLocalImputator(**kw)
    if key == "smoother":
        if spec[0] == "lazy":
            return pc.LazySmoother()
        return pc.AffineSmoother(dt.timedelta(seconds=spec[1]))
    if key == "expander":
        if spec[0] == "lazy":
            return LazyExpander()
        return WeatherExpander(SimWeather(plan), spec[1])
    if key == "influence_model":
        if spec[0] == "identity":
            return mod.IdentityInfluenceModel()
        return mod.WindAngleCorrectingInfluenceModel(interval_size=spec[1])
    if key == "injector":
        return pc.ZeroInjector(spec[1])
    if key == "extension":
        return make_extension(spec, plan)
    if key == "quality_assurance":
        return MinimalQualityAssurance() if spec[0] == "minimal" else ComformingQualityAssurance()
    raise ValueError(key)


def make_handlers(spec, n, plan=None, recorder=None):
    import hrosailing.processing as pc

    cls = {"array": pc.ArrayHandler, "frame": pc.ArrayHandler, "csv": pc.CsvFileHandler,
           "nmea": pc.NMEAFileHandler}[spec[1]]
    if spec[0] == "one":
        return hook(cls(), "data_handler", plan, recorder)
    return [hook(cls(), "data_handler", plan, recorder) for _ in range(n)]


KEYS = ["imputator", "smoother", "pre_expander_weigher", "pre_expander_filter", "expander",
        "pre_influence_weigher", "pre_influence_filter", "influence_model", "post_weigher",
        "post_filter", "injector", "extension", "quality_assurance"]


def build(cfg, plan=None, recorder=None, n_handlers=8):
    """A freshly made pipeline of this configuration."""
    from hrosailing.pipeline import PolarPipeline

    comps = {"data_handler": make_handlers(cfg["data_handler"], n_handlers, plan, recorder)}
    for key in KEYS:
        if cfg.get(key) is None:
            continue
        c = make_component(key, cfg[key], plan)
        name = COMPONENT_ALIASES.get(key, key) if cfg.get("alias") else key
        comps[name] = hook(c, key, plan, recorder)
    pipeline = PolarPipeline(**comps)
    if plan is not None or recorder is not None:
        for key in KEYS:
            if cfg.get(key) is None:
                hook(getattr(pipeline, key), key, plan, recorder)
    return pipeline


def table(source):
    """Column dict of python values of a source"""
    out = {}
    for j, c in enumerate(source["cols"]):
        vals = [r[j] for r in source["rows"]]
        if c == "datetime":
            vals = [None if v is None else dt.datetime.fromisoformat(v) for v in vals]
        out[c] = vals
    return out


def make_input(source, handler, scratch, name):
    """The object that a handler of this kind reads the source from."""
    if handler == "array":
        import numpy as np

        cols = table(source)
        n = len(source["rows"])
        arr = np.empty((n, len(cols)), dtype=object)
        for j, c in enumerate(cols):
            for i, v in enumerate(cols[c]):
                arr[i, j] = v
        return (arr, tuple(cols))
    if handler == "frame":
        import pandas as pd

        return pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in table(source).items()})
    path = os.path.join(scratch, name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(",".join(source["cols"]) + "\n")
        for r in source["rows"]:
            f.write(",".join("" if v is None else v.replace("T", " ") + ".000000" if isinstance(v, str) else repr(v)
                             for v in r) + "\n")
    return path


def make_inputs(sources, cfg, scratch, name):
    if sources is None:
        return None
    out = []
    for i, s in enumerate(sources):
        if s.get("again") and i and {**s, "again": 0} == {**sources[i - 1], "again": 0}:
            out.append(out[-1])
        else:
            out.append(make_input(s, cfg["data_handler"][1], scratch, f"{name}-{i}.csv"))
    return out


# ---------------------------------------------------------------- results
def canon_value(v):
    import numpy as np

    if isinstance(v, dict):
        return {str(k): canon_value(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon_value(x) for x in v]
    if isinstance(v, np.ndarray):
        return [canon_value(x) for x in v.tolist()]
    if isinstance(v, (bool, np.bool_)) or v is None:
        return None if v is None else bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return repr(v)


def same(a, b):
    """Equality of pictures up to the last digits of floats: numpy rounds differently
    depending on where in memory its arrays happen to lie."""
    if a == b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        pa, pb = NUMBER.split(a), NUMBER.split(b)
        if len(pa) != len(pb) or pa[::2] != pb[::2]:
            return False
        return all(close(float(x), float(y)) for x, y in zip(pa[1::2], pb[1::2]))
    return False


NUMBER = re.compile(r"([-+]?\d+\.?\d*(?:e[-+]?\d+)?)")


def close(x, y):
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-12


def canon_diagram(pd):
    return canon_value(dg.content(pd))


def canon_output(out):
    stats = []
    for st in (out.training_statistics, out.test_statistics):
        d = canon_value(dict(st._asdict()))
        if isinstance(d.get("quality_assurance"), dict):
            d["quality_assurance"].pop("execution time", None)
        stats.append(d)
    return {"diagram": canon_diagram(out.polardiagram), "training": stats[0], "test": stats[1]}


def snap_output(out):
    """All of an output, for comparing it with itself later"""
    return {"diagram": canon_diagram(out.polardiagram),
            "training": canon_value(dict(out.training_statistics._asdict())),
            "test": canon_value(dict(out.test_statistics._asdict()))}


def flags_of(pipeline):
    return {f: bool(getattr(pipeline, f, None)) for f in FLAGS}


def seed_random(n):
    """Every random source of the next operation is decided by the scenario."""
    import random

    import numpy as np

    random.seed(n)
    np.random.seed(n % 2**32)
    real = _real_default_rng()

    def default_rng(seed=None):
        return real(n if seed is None else seed)

    np.random.default_rng = default_rng


_RNG = []


def _real_default_rng():
    import numpy as np

    if not _RNG:
        _RNG.append(np.random.default_rng)
    return _RNG[0]


def call_pipeline(pipeline, train, test, flags, faults, plan, rng_seed):
    """One run; ("ok", output) or ("err", type name, message)."""
    seed_random(rng_seed)
    if plan is not None:
        plan.arm(faults)
    try:
        out = pipeline(train, test, **flags)
    except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
        if plan is not None:
            plan.error = exc
        return ("err", type(exc).__name__, said(exc)[:200])
    finally:
        if plan is not None:
            fired = list(plan.fired)
            calls = dict(plan.calls)
            plan.arm([])
            plan.fired, plan.calls = fired, calls
    return ("ok", out)


def diff_outcome(want, got):
    """want/got: canonical outcomes ["ok", dict] or ["err", type, msg]"""
    if want[0] != got[0]:
        return f"outcome {str(want)[:200]} became {str(got)[:200]}"
    if want[0] == "err":
        return None if want[1] == got[1] else f"error {want[1:]} became {got[1:]}"
    for part in ("diagram", "training", "test"):
        a, b = want[1][part], got[1][part]
        if not same(a, b):
            for k in a:
                if not same(a[k], b.get(k)):
                    return f"{part}.{k}: {str(a[k])[:300]} became {str(b.get(k))[:300]}"
            return f"{part} differs"
    return None
