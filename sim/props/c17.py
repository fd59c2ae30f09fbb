"""C17: reused components behave like fresh ones."""
import json
import os

from sim import diagrams as dg, logs, pipes
from sim.core import h, run_in_child, said

RUNS = {"quick": 1400, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run makes one component and uses it several times on seeded data, some uses failing (a callback of the "
        "component, a damaged or missing file, unfit data); the outcome of every use that no injected fault reached "
        "(result, statistics, or kind of error) is compared with a newly made component's in another process, and "
        "all earlier results and statistics with their snapshots. Non-trivial: a later use gave a result. Distinct by "
        "digest.")
STATE_MEASURE = "distinct (component, use, outcome)"
REAL = "all handlers, imputators, smoothers, weighers, filters, expanders, influence models, samplers, " \
       "neighbourhoods, regressors, interpolators, injectors, extensions, quality assurances, fuzzy variables"
STUB = "weather provider, source of randomness, failing callbacks (norms, model functions, fill functions), log files"
ASSUMPTIONS = ["random draws of a use are the same for both components (seeded per use)",
               "callbacks of ODRPACK do not raise (scipy's C code cannot take it)"]
SHRINK_LISTS = [("uses",)]

KINDS = ["handler", "handler", "imputator", "smoother", "weigher", "weigher", "weigher", "filter", "expander",
         "influence", "influence", "sampler", "sampler", "nhood", "regressor", "regressor", "interp", "interp",
         "injector", "extension", "qa", "variable"]
LINK = ["true"] * 4 + ["apparent", "ground"]


def gen_points(rng, n=None):
    """[ws, wa, bsp, weight] rows"""
    n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
    out = []
    for _ in range(n):
        if out and rng.random() < 0.1:
            out.append(list(rng.choice(out)))
            continue
        out.append([round(rng.uniform(2, 24), 1), float(rng.randrange(0, 360, 5)), round(rng.uniform(0, 12), 2),
                    rng.choice([1.0, 1.0, round(rng.random(), 3)])])
    return out


def gen_grid_points(rng):
    wss = sorted(rng.sample(range(2, 24, 2), rng.randint(2, 4)))
    was = sorted(rng.sample(range(0, 360, 15), rng.randint(2, 6)))
    return [[float(a), float(b), round(rng.uniform(0, 12), 2), 1.0] for a in wss for b in was]


def gen_table(rng, layout):
    speed = "SOG" if layout == "ground" else "BSP"
    n = rng.choice([0, 1, 2, 4, 8, rng.randint(3, 25)])
    return pipes.gen_source(rng, n, rng.choice([0, 100]), layout == "apparent", rng.random() < 0.7, speed,
                            rng.random() < 0.2)


def gen_file(rng, kind):
    """text of a log, or None (no such file)"""
    r = rng.random()
    if r < 0.08:
        return None
    if kind == "csv":
        text = logs.csv_text(logs.gen_csv(rng, rng.choice([0, 1, 3, 8])))
    else:
        stream, _ = logs.gen_stream(rng, rng.choice([1, 2, 4]))
        arrived, _ = logs.apply_link(stream, logs.gen_link_faults(rng, len(stream)))
        text = "\n".join(logs.sentence_text(i) for i in arrived) + "\n"
    if r < 0.25 and text:
        k = rng.randrange(len(text))
        text = rng.choice([text[:k], text[:k] + rng.choice(["X", ",", "\n", "*00\n", "\x00"]) + text[k + 1:]])
    return text


def gen_use(rng, kind, spec, layout):
    u = {"seed": rng.randrange(4), "faults": []}
    r = rng.random()
    if kind == "handler":
        if spec[0] == "array":
            u["table"] = gen_table(rng, layout)
            u["as"] = rng.choice(["array", "array", "frame", "short-names", "nothing"])
        else:
            u["text"] = gen_file(rng, spec[0])
    elif kind in ("imputator", "smoother", "expander", "influence") or (kind == "weigher" and spec[1]):
        u["table"] = gen_table(rng, layout)
        if kind == "weigher":
            u["table"] = complete(u["table"])
        elif kind in ("influence", "smoother") and r < 0.8:
            u["table"] = complete(u["table"])
        if kind == "influence":
            u["op"] = rng.choice(["fit", "fit-remove", "fit-remove", "remove", "fit-add", "add"])
            u["other"] = complete(gen_table(rng, layout))
            if rng.random() < 0.15:
                u["table"]["cols"] = [c + "?" if c == "TWA" else c for c in u["table"]["cols"]]
        elif rng.random() < 0.12:
            # a column that is needed is missing
            k = rng.randrange(len(u["table"]["cols"]))
            u["table"]["cols"][k] += "?"
    elif kind == "variable":
        def compare():
            return [rng.choice(["lt", "gt", "le", "ge", "eq"]), rng.choice([None, None, 1, 2.5, 30]),
                    rng.choice([None, None, None, "TWA", "BSP"]),
                    rng.choice(["many", None]) if rng.random() < 0.15 else round(rng.uniform(-2, 14), 1)]

        u["op"] = rng.choice(["rule"] * 5 + ["item", "made", "read", "shown"])
        u["terms"] = [compare() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        u["join"] = [rng.choice(["and", "or"]) for _ in u["terms"]]
        u["not"] = rng.random() < 0.2
    elif kind == "filter":
        u["weights"] = [rng.choice([0.0, 0.5, 1.0, round(rng.uniform(-1, 2), 3)])
                        for _ in range(rng.choice([0, 1, 2, 5, 20]))]
    else:
        u["pts"] = gen_grid_points(rng) if rng.random() < 0.3 else gen_points(rng)
        u["grid"] = [round(rng.uniform(0, 26), 1), float(rng.randrange(0, 360))]
        if u["pts"] and rng.random() < 0.2:
            u["grid"] = u["pts"][0][:2]
        if rng.random() < 0.08:
            u["bad"] = rng.choice(["flat", "narrow", "nan"])
        if kind == "qa":
            u["pd"] = dg.gen_any(rng, nasty=False, kinds=("table", "cloud", "curve"))
    return u


def variant(rng, u):
    """The same use with some other values: same shape, ends, names or place"""
    u = json.loads(json.dumps(u))
    if "pts" in u:
        for p in u["pts"][rng.choice([0, 1, len(u["pts"]) // 2]):]:
            j = rng.choice([0, 1, 2, 2, 3])
            p[j] = [round(rng.uniform(2, 24), 1), float(rng.randrange(0, 360, 5)), round(rng.uniform(0, 12), 2),
                    round(rng.random(), 3)][j]
        if rng.random() < 0.3:
            u["grid"] = [round(rng.uniform(0, 26), 1), float(rng.randrange(0, 360))]
        if rng.random() < 0.3:
            rng.shuffle(u["pts"])
    elif "weights" in u:
        u["weights"] = [rng.choice([w, round(rng.uniform(-1, 2), 3)]) for w in u["weights"]]
    for key in ("table", "other"):
        for r in u.get(key, {}).get("rows", []):
            j = rng.randrange(len(r))
            if isinstance(r[j], float) and rng.random() < 0.7:
                r[j] = round(r[j] * rng.choice([0.5, 0.9, 1.1]) + 0.1, 4)
        if key in u and rng.random() < 0.2:
            rng.shuffle(u[key]["rows"])
    return u


def complete(src):
    """The rows of a source with nothing lost"""
    return {"cols": src["cols"], "rows": [r for r in src["rows"] if None not in r]}


def gen_component(rng, layout):
    kind = rng.choice(KINDS)
    names = {"true": ("TWS", "TWA", "BSP"), "apparent": ("AWS", "AWA", "BSP"), "ground": ("TWS", "TWA", "SOG")}[layout]
    if kind == "handler":
        spec = rng.choice([["array"], ["array"], ["csv"], ["nmea", None], ["nmea", "attrs"], ["nmea", "sentences"],
                           ["nmea", "types"]])
    elif kind == "imputator":
        spec = rng.choice([["local", rng.choice([30, 120, 3600]), rng.choice(["default", "affine"])], ["remove"]])
    elif kind == "smoother":
        spec = rng.choice([["affine", 30], ["affine", 1], ["lazy"]])
    elif kind == "weigher":
        on_data = rng.random() < 0.5
        spec = [pipes.gen_weigher(rng, on_data, 0, names), on_data]
    elif kind == "filter":
        spec = pipes.gen_filter(rng)
    elif kind == "expander":
        spec = rng.choice([["weather", rng.choice(["delete", "ignore"])], ["weather", "delete"], ["lazy"]])
    elif kind == "influence":
        spec = rng.choice([["identity"], ["angle", 10], ["angle", 30], ["angle", 90]])
    elif kind == "sampler":
        spec = [rng.choice(["uniform", "fibonacci", "archimedean"]), rng.randint(1, 15)]
    elif kind == "nhood":
        spec = pipes.gen_nhood(rng)
    elif kind == "regressor":
        spec = [rng.choice(["odr", "lsq", "lsq"]), rng.choice(["linear", "quad"])]
    elif kind == "interp":
        spec = rng.choice([pipes.gen_interp(rng), pipes.gen_interp(rng), ["bilinear"]])
    elif kind == "injector":
        spec = [rng.choice([0, 1, 3, 10])]
    elif kind == "variable":
        spec = [rng.choice([1, 4, 10]), rng.choice([None, None, "TWS"])]
    elif kind == "extension":
        spec = pipes.gen_extension(rng)
    else:
        spec = [rng.choice(["minimal", "conforming"])]
    return kind, spec


def sites(kind, spec):
    text = str(spec)
    out = []
    if kind == "weigher" and ("'mean'" in text or "'member'" in text):
        out.append("norm")
    if kind == "imputator" and "affine" in text:
        out.append("fill")
    if kind == "expander" and spec[0] == "weather":
        out.append("weather")
    if kind in ("nhood", "extension") and ("'ball'" in text or "'scaling'" in text):
        out.append("nhood")
    if kind in ("interp", "extension") and any(x in text for x in ("'idw'", "'improved'", "'shepard'")):
        out.append("interp")
    if "lsq" in text:
        out.append("model_func")
    return out


def generate(rng, tier):
    layout = rng.choice(LINK)
    kind, spec = gen_component(rng, layout)
    pool = [gen_use(rng, kind, spec, layout) for _ in range(rng.randint(2, 4))]
    for _ in range(rng.choice([0, 1, 2])):
        pool.append(variant(rng, rng.choice(pool)))
    inner = sites(kind, spec)
    uses = []
    for _ in range(rng.randint(2, 6 if tier == "quick" else 10)):
        u = dict(rng.choice(pool))
        u["seed"] = rng.randrange(4)
        if inner and rng.random() < 0.35:
            u["faults"] = [[rng.choice(inner), rng.choice([1, 1, 2, 3, 7, 20]), "pre",
                            rng.choice(sorted(pipes.EXCEPTIONS))]]
        uses.append(json.loads(json.dumps(u)))
    uses[-1]["faults"] = []
    return {"kind": kind, "spec": spec, "uses": uses, "buffer": rng.random() < 0.4}


# ---------------------------------------------------------------- doing
def make(kind, spec, plan):
    import hrosailing.processing as pc

    if kind == "handler":
        if spec[0] == "array":
            return pc.ArrayHandler()
        if spec[0] == "csv":
            return pc.CsvFileHandler()
        kw = {None: {}, "attrs": {"wanted_attributes": ["TWS", "TWA", "lat", "lon", "time", "date"]},
              "sentences": {"unwanted_sentences": ["GLL"]}, "types": {"post_filter_types": False}}[spec[1]]
        return pc.NMEAFileHandler(**kw)
    if kind == "weigher":
        return pipes.make_weigher(spec[0], plan)
    if kind == "nhood":
        return pipes.make_nhood(spec, plan)
    if kind == "interp":
        if spec[0] == "bilinear":
            from hrosailing.processing.interpolator import BilinearGridInterpolator

            return BilinearGridInterpolator()
        return pipes.make_interp(spec, plan)
    if kind == "sampler":
        return pipes.make_sampler(*spec)
    if kind == "regressor":
        return pipes.make_regressor(spec[0], spec[1], plan)
    if kind == "injector":
        return pc.ZeroInjector(spec[0])
    if kind == "variable":
        return pc.FuzzyVariable(*spec)
    if kind == "qa":
        return pipes.make_component("quality_assurance", spec, plan)
    return pipes.make_component({"influence": "influence_model"}.get(kind, kind), spec, plan)


def as_data(src):
    from hrosailing.core.data import Data

    d = Data()
    d.update(pipes.table(src))
    return d


BUFFERS = {}  # shape -> array that the caller fills again and again


def points(u):
    import numpy as np

    arr = np.array(u["pts"], dtype=float).reshape(-1, 4)
    pts = arr[:, :3].copy()
    if u.get("buffer"):
        buf = BUFFERS.setdefault(pts.shape, np.empty_like(pts))
        buf[:] = pts
        pts = buf
    if u.get("bad") == "flat":
        pts = pts.ravel()
    elif u.get("bad") == "narrow":
        pts = pts[:, :1]
    elif u.get("bad") == "nan" and len(pts):
        pts = pts.copy()
        pts[0, -1] = np.nan
    return pts, arr[:, 3].copy()


def weighted(u):
    from hrosailing.core.data import WeightedPoints

    return WeightedPoints(*points(u))


def operate(comp, kind, spec, u, scratch):
    """One use of the component, its raw result"""
    if kind == "handler":
        if spec[0] == "array":
            if u["as"] == "nothing":
                return comp.handle(None)
            x = pipes.make_input(u["table"], "frame" if u["as"] == "frame" else "array", scratch, "x")
            if u["as"] == "short-names":
                x = (x[0], x[1][:-1])
            return comp.handle(x)
        path = os.path.join(scratch, f"log-{h(u['text'] or '')}")
        if u["text"] is not None:
            with open(path, "w", encoding="utf-8") as f:
                f.write(u["text"])
        else:
            path += "-missing"
        return comp.handle(path)
    if kind == "imputator":
        return comp.impute(as_data(u["table"]))
    if kind == "smoother":
        return comp.smooth(as_data(u["table"]))
    if kind == "expander":
        return comp.expand(as_data(u["table"]))
    if kind == "weigher":
        return comp.weigh(as_data(u["table"]) if spec[1] else points(u)[0])
    if kind == "variable":
        return operate_variable(comp, u)
    if kind == "filter":
        import numpy as np

        return comp.filter(np.array(u["weights"], dtype=float))
    if kind == "influence":
        out = []
        if "fit" in u["op"]:
            out.append(comp.fit(as_data(u["table"])))
            u["fitted"] = True
        if "remove" in u["op"]:
            out.append(comp.remove_influence(as_data(u["other"])))
        if "add" in u["op"]:
            from hrosailing.polardiagram import PolarDiagramTable

            out.append(comp.add_influence(PolarDiagramTable(), as_data(u["other"])))
        return out
    pts, _ = points(u)
    if kind == "sampler":
        return comp.sample(pts[:, :2] if pts.ndim == 2 else pts)
    if kind == "nhood":
        return comp.is_contained_in(pts[:, :2] - u["grid"] if pts.ndim == 2 and pts.shape[1] > 1 else pts)
    if kind == "regressor":
        comp.fit(pts)
        x = [1.0, 5.5, 12.0], [10.0, 90.0, 180.0]
        import numpy as np

        return [list(comp.optimal_params), comp.model_func(np.array(x[0]), np.array(x[1]), *comp.optimal_params)]
    if kind == "interp":
        return comp.interpolate(weighted(u), u["grid"])
    if kind == "injector":
        return comp.inject(weighted(u))
    if kind == "extension":
        return comp.process(weighted(u))
    return comp.check(dg.build(u["pd"]), points(u)[0])


def operate_variable(var, u):
    """Truth functions made with a fuzzy variable, or one of the things it answers besides"""
    sharp, item = u["terms"][0][1:3]
    if u["op"] == "made":
        var(sharp or 7)  # pylint: disable=expression-not-assigned
        return None
    if u["op"] == "read":
        return var.sharpness
    if u["op"] == "shown":
        return [str(var), repr(var)]
    if u["op"] == "item":
        other = var[item or "TWS"]
        return [str(other), repr(other), other.sharpness]
    out = None
    for k, (op, sharp, item, value) in enumerate(u["terms"]):
        v = var if item is None else var[item]
        v = v if sharp is None else v(sharp)
        one = {"lt": v.__lt__, "gt": v.__gt__, "le": v.__le__, "ge": v.__ge__, "eq": v.__eq__}[op](value)
        out = one if out is None else out & one if u["join"][k] == "and" else out | one
    return ~out if u["not"] else out


def truth(statement):
    """What a fuzzy statement says of some values"""
    out = [str(statement)]
    for x in (-1.0, 0.5, 3.0, 5.95, 6.0, 11.0):
        point = {"TWS": x, "TWA": x + 1, "BSP": x / 2}
        try:
            out.append(round(float(statement(x)), 9))
        except (TypeError, IndexError):
            try:
                out.append(round(float(statement(point)), 9))
            except (TypeError, IndexError):  # speaks of a value and of a point
                out.append(None)
    return out


def picture(x):
    import numpy as np
    from hrosailing.core.data import Data, WeightedPoints
    from hrosailing.polardiagram import PolarDiagram
    from hrosailing.processing.weigher import FuzzyBool

    if isinstance(x, FuzzyBool):
        return truth(x)
    if isinstance(x, PolarDiagram):
        return pipes.canon_diagram(x)
    if isinstance(x, (list, tuple)):
        return [picture(y) for y in x]
    if isinstance(x, (Data, WeightedPoints, np.ndarray)):
        return pipes.snap(x)
    return pipes.canon_value(x)


def use(comp, kind, spec, u, scratch, plan, inject):
    """(outcome as JSON, raw result, raw statistics)"""
    pipes.seed_random(u["seed"])
    plan.arm(u["faults"] if inject else [])
    try:
        raw = operate(comp, kind, spec, u, scratch)
    except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
        return ["err", type(exc).__name__, said(exc)[:200]], None, None
    finally:
        fired = list(plan.fired)
        plan.arm([])
        plan.fired = fired
    stats = comp.get_latest_statistics() if hasattr(comp, "get_latest_statistics") else None
    return ["ok", picture(raw), pipes.canon_value(stats)], raw, stats


def execute(scn, ctx):
    res = ctx.res
    kind, spec = scn["kind"], scn["spec"]
    wants, fails = [], []
    memo = {}
    fitted = None  # what a fit leaves behind is meant to last until the next fit
    for u in scn["uses"]:
        if kind == "influence" and "fit" not in u["op"]:
            u = dict(u, before=fitted)
        key = json.dumps(u, sort_keys=True)
        if key not in memo:
            def fresh(u=u):
                plan = pipes.FaultPlan()
                comp = make(kind, spec, plan)
                if u.get("before"):
                    comp.fit(as_data(u["before"]))
                u = dict(u)
                out = use(comp, kind, spec, u, ctx.scratch, plan, False)[0]
                failed = None
                if u["faults"]:
                    comp = make(kind, spec, plan)
                    if u.get("before"):
                        comp.fit(as_data(u["before"]))
                    failed = use(comp, kind, spec, u, ctx.scratch, plan, True)[0]
                    failed = failed[:2] if plan.fired else None
                return [out, "fitted" in u, failed]

            st, memo[key] = run_in_child(fresh)
            if memo[key] is None:
                raise RuntimeError(f"reference use died with {st}")
        wants.append(memo[key][0])
        fails.append(memo[key][2])
        if memo[key][1]:
            fitted = u["table"]
    plan = pipes.FaultPlan()
    comp = make(kind, spec, plan)
    kept = []
    name = f"{kind}:{spec[0][0] if isinstance(spec[0], list) else spec[0]}"
    for k, u in enumerate(scn["uses"]):
        # results that are tables of points may be views of what was given
        buffer = scn.get("buffer") and kind in ("interp", "nhood", "qa", "regressor", "sampler", "weigher")
        got, raw, stats = use(comp, kind, spec, dict(u, buffer=buffer), ctx.scratch, plan, True)
        fired = list(plan.fired)
        for f in fired:
            res.fault(f"fails-inside:{f[0]}")
        if u.get("bad") or "text" in u and wants[k][0] == "err":
            res.fault("unfit-input")
        got = json.loads(json.dumps(got))
        res.log(f"use {k} {name} {u['faults']} -> {got[0]} {h(got[1])}")
        res.state([kind, spec, u, got[0]])
        for j, (old, old_stats, pic, old_raw_stats) in enumerate(kept):
            if json.loads(json.dumps(picture(old))) != pic:
                res.fail(f"earlier-result-changed:{name}", f"use {k} changed the result of use {j}")
            if json.loads(json.dumps(pipes.canon_value(old_raw_stats))) != old_stats:
                res.fail(f"earlier-statistics-changed:{name}", f"use {k} changed the statistics of use {j}")
        if res.violations:
            return
        if fired:
            res.count("uses_faulted")
            if fails[k] and fails[k][0] == "err" and got[0] == "ok":
                res.fail(f"failure-hidden:{name}", f"use {k}: {fired} fails in a fresh one: {fails[k]}, reused "
                                                   f"{str(got)[:300]}")
                return
            continue
        want = wants[k]
        res.count("uses_" + got[0])
        res.count(f"uses_{got[0]}:{kind}")
        if os.environ.get("DBG") and got[0] == "err":
            res.count(f"err {name} {got[1]} {got[2]}"[:110])
        if not pipes.same(got[:2], want[:2]) or got[0] == "ok" and not pipes.same(got[2], want[2]):
            what = "outcome" if got[0] != want[0] else "error" if got[0] == "err" else \
                "result" if not pipes.same(got[1], want[1]) else "statistics"
            res.fail(f"{what}-depends-on-history:{name}",
                     f"use {k}: fresh {str(want)[:500]}, reused {str(got)[:500]}")
            return
        if got[0] == "ok":
            if k:
                res.nontrivial = True
            kept.append((raw, got[2], got[1], stats))


def shrink(scn):
    def copy():
        return json.loads(json.dumps(scn))

    for i, u in enumerate(scn["uses"]):
        if u["faults"]:
            c = copy()
            c["uses"][i]["faults"] = []
            yield c
        for key in ("table", "other"):
            n = len(u.get(key, {}).get("rows", []))
            if n > 1:
                for part in (slice(None, n // 2), slice(n // 2, None)):
                    c = copy()
                    c["uses"][i][key]["rows"] = u[key]["rows"][part]
                    yield c
        n = len(u.get("pts", []))
        if n > 1:
            for part in (slice(None, n // 2), slice(n // 2, None)):
                c = copy()
                c["uses"][i]["pts"] = u["pts"][part]
                yield c
