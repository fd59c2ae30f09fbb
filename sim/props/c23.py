"""C23: the order in which measurements arrive does not change what is made of them."""
import datetime as dt
import json
import math

from sim import pipes
from sim.core import h, said

RUNS = {"quick": 1500, "thorough": 200000}
LEVEL = "exploration"
RULE = ("A run records a log, delivers it once in the order of the measurements and again over a simulated link that "
        "delays, reorders and regroups its packets (late records, reversed and shuffled bursts, sources split or "
        "swapped, columns in another order), and weighs, filters, corrects, looks up or runs a whole pipeline on "
        "every delivery; sums, differences, products and powers of weighers are compared with the same arithmetic "
        "of the weights. Non-trivial: a delivery in another order was worked on and gave a result. Distinct by digest.")
STATE_MEASURE = "distinct (operation, configuration, kind of delivery, outcome)"
REAL = ("all weighers and their arithmetic, filters, influence models, neighbourhoods, interpolators, polar diagrams, "
        "PolarPipeline with all components, extensions and quality assurance")
STUB = "the link (seeded delays and regrouping); weather provider; source of randomness"
ASSUMPTIONS = ["results may differ by rounding (1e-7 relative, fitted curves have to fit equally well): sums are taken in another order",
               "filling of lost values and smoothing use the order of the log (documented) and are left out",
               "no two records have the same wind, and no boat speed occurs twice"]
SHRINK_LISTS = [("deliveries",)]

NAMES = ("TWS", "TWA", "BSP")
T0 = dt.datetime(2024, 2, 28, 23, 50)


# ------------------------------------------------------------- generation
def gen_rows(rng, n):
    rows, seen = [], set()
    t, ws, wa = 0, rng.uniform(4, 20), rng.uniform(0, 360)
    stuck = rng.random() < 0.2
    grid = rng.random() < 0.3  # distances that are exactly as large as the radius
    while len(rows) < n:
        t += rng.choice([0, 1, 5, 10, 29, 30, 31, 60, 400])
        ws = max(0.5, ws + rng.uniform(-2, 2))
        wa = (wa + rng.choice([rng.uniform(-3, 3), rng.uniform(-40, 40)])) % 360
        row = [round(ws, rng.choice([1, 2])), round(wa, 1), round(rng.uniform(0, 9), 3) + 1e-5 * len(rows),
               round(40 + rng.uniform(-1, 1), 3), t]
        if grid:
            row = [round(2 * row[0]) / 2, float(5 * round(row[1] / 5) % 360), round(row[2] * 4) / 4 + len(rows) / 64, row[3], t]
        if stuck and rows and rng.random() < 0.7:
            row[0] = rows[-1][0]
        if (row[0], row[1]) in seen or row[0] <= 0:
            continue
        seen.add((row[0], row[1]))
        rows.append(row)
    return rows


def gen_expr(rng, data, depth=0):
    """Weighers and their arithmetic"""
    if depth >= 3 or rng.random() < (0.25 if depth == 0 else 0.55):
        spec = pipes.gen_weigher(rng, data, 1, NAMES)
        if spec[0] == "mean" and data:
            spec[2] = rng.choice([["TWS", "TWA", "BSP"], ["BSP", "TWS"], ["TWA", "BSP", "lat"], ["lat", "BSP", "TWA", "TWS"]])
        if spec[0] == "fuzzy":
            spec = ["rule", gen_rule(rng, data)]
        return spec
    op = rng.choice(["+", "+", "-", "*", "*", "/", "neg", "pow"])
    if op == "neg":
        return ["neg", gen_expr(rng, data, depth + 1)]
    if op == "pow":
        return ["pow", gen_expr(rng, data, depth + 1), rng.choice([1, 2, 3])]
    r = rng.random()
    if r < 0.5:
        return [op, gen_expr(rng, data, depth + 1), gen_expr(rng, data, depth + 1)]
    other = rng.choice([["num", rng.choice([2, 0.5, 3, 1.25])], ["num", rng.choice([2, 0.5, 3, 1.25])], ["arr", rng.randrange(1000)]])
    if r < 0.78 or op == "-":
        return [op, gen_expr(rng, data, depth + 1), other]
    return [op, other, gen_expr(rng, data, depth + 1)]


def gen_rule(rng, data, depth=0):
    if depth >= 2 or rng.random() < 0.4:
        key = rng.choice(NAMES) if data else rng.choice([0, 1, 2])
        return [rng.choice(["lt", "gt", "le", "ge", "eq"]), key, round(rng.uniform(0, 15), 1), rng.choice([None, 0.5, 2])]
    op = rng.choice(["and", "or", "not"])
    if op == "not":
        return ["not", gen_rule(rng, data, depth + 1)]
    return [op, gen_rule(rng, data, depth + 1), gen_rule(rng, data, depth + 1)]


def arrival(rng, n):
    """The order in which n packets arrive, and the kind of trouble that caused it"""
    kind = rng.choice(["late", "late", "reversed", "shuffled", "burst", "swap", "rotated", "ordered"])
    order = list(range(n))
    if kind == "late":  # some packets are delayed
        p, span = rng.choice([0.1, 0.4]), rng.choice([1.5, 4, 30])
        due = [i + (rng.uniform(0, span) if rng.random() < p else 0) for i in order]
        order.sort(key=lambda i: due[i])
    elif kind == "reversed":
        order.reverse()
    elif kind == "shuffled":
        rng.shuffle(order)
    elif kind == "burst" and n > 1:
        a = rng.randrange(n)
        b = min(n, a + rng.randint(2, 6))
        part = order[a:b]
        rng.shuffle(part)
        order[a:b] = part
    elif kind == "swap" and n > 1:
        a, b = rng.randrange(n), rng.randrange(n)
        order[a], order[b] = order[b], order[a]
    elif kind == "rotated":
        a = rng.randrange(n)
        order = order[a:] + order[:a]
    return kind, order


def gen_delivery(rng, n, cols):
    kind, order = arrival(rng, n)
    cols = list(cols)
    if rng.random() < 0.6:
        rng.shuffle(cols)
    return {"kind": kind, "order": order, "cols": cols}


def steady(rng, cfg):
    """Only components that look at every record for itself, and filters that rounding cannot decide"""
    cfg["imputator"] = ["remove"]
    cfg["smoother"] = ["lazy"]
    for key in ("pre_expander", "pre_influence", "post"):
        if cfg.get(key + "_weigher") is None:  # the default
            cfg[key + "_weigher"] = ["one"]
        if cfg.get(key + "_filter") is None:
            cfg[key + "_filter"] = ["bound", 0, 1000]
        if "mean" in str(cfg[key + "_weigher"]) and cfg[key + "_filter"][0] == "quantile":
            cfg[key + "_filter"] = rng.choice([["quantile", 0], ["bound", 0.1, 1000], ["bound", 0.35, 1000]])
    if "shepard" in str(cfg["extension"]):
        cfg["extension"] = json.loads(json.dumps(cfg["extension"]).replace('"shepard"', '"improved"'))
    if cfg["extension"][0] == "curve":
        cfg["extension"][1] = "lsq"
    if cfg["extension"][0] == "cloud":  # the circles of the other samplers are chosen at random
        cfg["extension"][1] = "uniform"
    return cfg


def by_record(cfg, stage):
    """The stage decides on every record for itself; others look at all records of their log"""
    return cfg[stage + "_weigher"][0] in ("one", "fuzzy") and (
        cfg[stage + "_filter"][0] == "bound" or cfg[stage + "_filter"][1] == 0)


def gen_pipe(rng):
    cfg = steady(rng, pipes.gen_config(rng))
    parts_allowed = by_record(cfg, "pre_expander") and by_record(cfg, "pre_influence")
    call = pipes.gen_call(rng, cfg)
    for part in ("train", "test"):
        for s in call[part] or []:
            s.pop("again", None)
    deliveries = []
    for _ in range(rng.randint(1, 2)):
        d = {"kind": rng.choice(["rows", "sources", "columns", "all", "all"])}
        for part in ("train", "test"):
            sources = json.loads(json.dumps(call[part]))
            for s in sources or []:
                if d["kind"] in ("rows", "all"):
                    order = arrival(rng, len(s["rows"]))[1]
                    s["rows"] = [s["rows"][i] for i in order]
                if d["kind"] in ("columns", "all"):
                    order = list(range(len(s["cols"])))
                    rng.shuffle(order)
                    s["cols"] = [s["cols"][j] for j in order]
                    s["rows"] = [[r[j] for j in order] for r in s["rows"]]
            if sources and d["kind"] in ("sources", "all"):
                rng.shuffle(sources)
                if parts_allowed and len({tuple(sorted(s["cols"])) for s in sources}) == 1 and rng.random() < 0.6:
                    k = rng.randrange(len(sources))
                    s = sources[k]
                    at = rng.randint(0, len(s["rows"]))
                    if 0 < at < len(s["rows"]) and len(sources) < 8:  # one log arrives in two parts
                        sources[k:k + 1] = [{**s, "rows": s["rows"][at:]}, {**s, "rows": s["rows"][:at]}]
            d[part] = sources
        deliveries.append(d)
    return {"op": "pipe", "cfg": cfg, "call": call, "seed": rng.randrange(1000), "deliveries": deliveries, "rows": []}


def generate(rng, tier):
    r = rng.random()
    if r < 0.25:
        return json.loads(json.dumps(gen_pipe(rng)))
    n = rng.choice([1, 2, 3, rng.randint(4, 15), rng.randint(6, 25 if tier == "quick" else 80)])
    rows = gen_rows(rng, n)
    cols = ["TWS", "TWA", "BSP", "lat", "datetime"]
    scn = {"rows": rows, "deliveries": [gen_delivery(rng, n, cols) for _ in range(rng.randint(1, 3))]}
    if r < 0.7:
        form = rng.choice(["data", "data", "array"])
        scn.update(op="weigh", form=form, expr=gen_expr(rng, form == "data"),
                   filters=[pipes.gen_filter(rng) for _ in range(2)])
    elif r < 0.8:
        scn.update(op="influence", model=rng.choice([["identity"], ["angle", rng.choice([10, 30])]]),
                   layout=rng.choice(["true", "apparent"]))
        if scn["model"][0] == "angle":
            scn["layout"] = "true"
            scn["rows"] = scn["rows"][:8]
            n = len(scn["rows"])
            scn["deliveries"] = [gen_delivery(rng, n, cols) for _ in range(2)]
    else:
        scn.update(op="lookup", kind=rng.choice(["cloud", "cloud", "table", "multi"]),
                   queries=[[round(rng.uniform(1, 22), 2), round(rng.uniform(0, 360), 1)] for _ in range(3)],
                   interp=rng.choice([None, ["idw", 2], ["idw", 1], ["mean", 10], ["improved"], ["shepard"]]),
                   nhood=rng.choice([["ball", 1], ["ball", 30], ["ball", 0.2], ["scaling", 1], ["scaling", 3], ["cuboid"], ["polytope"], ["ellipsoid"]]))
        if scn["kind"] == "multi":
            scn["deliveries"] = scn["deliveries"][:1]
    return json.loads(json.dumps(scn))


# -------------------------------------------------------------- execution
def arrived(rows, cols, order):
    import hrosailing.core.data as data

    names = ["TWS", "TWA", "BSP", "lat", "datetime"]
    out = data.Data()
    for c in cols:
        j = names.index(c)
        out.extend(c, [T0 + dt.timedelta(seconds=rows[i][j]) if c == "datetime" else float(rows[i][j]) for i in order])
    return out


def array_of(rows, order):
    import numpy as np

    return np.array([[float(v) for v in rows[i][:3]] for i in order])


def values(spec, n):
    """The array of an expression, one value for every record"""
    return [0.25 + ((spec[1] * 7 + 13 * i) % 11) / 4 for i in range(n)]


def build(expr, order):
    """The weigher object of an expression for records in this order"""
    import numpy as np

    kind = expr[0]
    if kind == "num":
        return expr[1]
    if kind == "arr":
        vals = values(expr, len(order))
        return np.array([vals[i] for i in order])
    if kind == "neg":
        return -build(expr[1], order)
    if kind == "pow":
        return build(expr[1], order) ** expr[2]
    if kind in "+-*/":
        a, b = build(expr[1], order), build(expr[2], order)
        return a + b if kind == "+" else a - b if kind == "-" else a * b if kind == "*" else a / b
    if kind == "rule":
        import hrosailing.processing as pc

        return pc.FuzzyWeigher(rule(expr[1], pc.FuzzyVariable()))
    return pipes.make_weigher(expr)


def rule(spec, x):
    if spec[0] == "and":
        return rule(spec[1], x) & rule(spec[2], x)
    if spec[0] == "or":
        return rule(spec[1], x) | rule(spec[2], x)
    if spec[0] == "not":
        return ~rule(spec[1], x)
    v = x[spec[1]]
    if spec[3] is not None:
        v = v(spec[3])
    return {"lt": v.__lt__, "gt": v.__gt__, "le": v.__le__, "ge": v.__ge__, "eq": v.__eq__}[spec[0]](spec[2])


def reference(expr, points, n):
    """The same arithmetic on the weights that every weigher gives on its own"""
    import numpy as np

    kind = expr[0]
    if kind == "num":
        return expr[1]
    if kind == "arr":
        return np.array(values(expr, n))
    if kind == "neg":
        return -reference(expr[1], points, n)
    if kind == "pow":
        return reference(expr[1], points, n) ** expr[2]
    if kind in "+-*/":
        a, b = reference(expr[1], points, n), reference(expr[2], points, n)
        return a + b if kind == "+" else a - b if kind == "-" else a * b if kind == "*" else a / b
    own = formula(expr, points, n)
    return np.asarray(build(expr, range(n)).weigh(points), dtype=float) if own is None else np.array(own)


def formula(expr, points, n):
    """Weights of the weighers that look at the neighbours of a record, as documented"""
    import numpy as np

    def columns(dims):
        if isinstance(points, np.ndarray):
            return points.tolist()
        return [[points[c][i] for c in dims] for i in range(n)]

    def dist(p, q):
        return math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))

    if expr[0] == "fluct":
        span = expr[2] if isinstance(expr[2], list) else [expr[2], 0]
        secs = [(t - T0).total_seconds() for t in points["datetime"]]
        out = []
        for t in secs:
            w = 1.0
            for key, bound in zip(expr[1], expr[3]):
                vals = [points[key][j] for j in range(n) if -span[0] <= secs[j] - t <= span[1]]
                w *= max(0.0, (bound - float(np.std(vals))) / bound)
            out.append(w)
        return out
    if expr[0] == "member" and expr[4]:
        pts = columns(expr[3])
        count = [sum(abs(q[-1] - p[-1]) <= expr[2] and dist(q[:-1], p[:-1]) <= expr[1] for q in pts) - 1 for p in pts]
        return [c / (max(count) or 1) for c in count]
    if expr[0] == "mean" and expr[3]:
        if isinstance(points, np.ndarray):
            pts, speeds = points[:, :-1].tolist(), points[:, -1].tolist()
        else:
            pts, speeds = columns([d for d in expr[2] if d != "BSP"]), points["BSP"]
        out = []
        for p, v in zip(pts, speeds):
            near = [speeds[j] for j, q in enumerate(pts) if dist(q, p) <= expr[1]]
            out.append(abs(float(np.mean(near)) - v) / (float(np.std(near)) or 1))
        return [1 - w / (max(out) or 1) for w in out]
    return None


def close(a, b, tol=1e-7, least=1e-9):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b)) + least


def attempt(fn):
    try:
        return ["ok", fn()]
    except Exception as exc:  # pylint: disable=broad-except
        return ["err", type(exc).__name__, said(exc)[:150]]


def leaves(expr):
    if expr[0] in ("num", "arr"):
        return []
    if expr[0] in ("neg", "pow"):
        return leaves(expr[1])
    if expr[0] in ("+", "-", "*", "/"):
        return leaves(expr[1]) + leaves(expr[2])
    return [expr]


def divides(expr):
    if expr[0] == "/":
        return True
    return any(divides(e) for e in expr[1:] if isinstance(e, list)) if expr[0] in ("neg", "pow", "+", "-", "*") else False


def weigh(scn, res):
    import numpy as np

    rows, expr = scn["rows"], scn["expr"]
    n = len(rows)
    straight = list(range(n))
    cols = ["TWS", "TWA", "BSP", "lat", "datetime"]

    def points(order, columns):
        return arrived(rows, columns, order) if scn["form"] == "data" else array_of(rows, order)

    def weights(order, columns):
        out = build(expr, order).weigh(points(order, columns))
        return np.asarray(out, dtype=float).tolist()

    base = attempt(lambda: weights(straight, cols))
    res.log(f"weigh {expr} -> {base[0]} {base[1] if base[0] == 'err' else h(base[1])}")
    want = attempt(lambda: np.asarray(reference(expr, points(straight, cols), n), dtype=float).tolist())
    if want[0] != base[0]:
        res.fail("weigher-arithmetic", f"{expr}: weights {str(want)[:120]}, combined {str(base)[:200]}")
        return
    if base[0] == "err":
        res.count("err_" + base[1])
        return
    # differences of equal weights and quotients of these are decided by rounding
    steady_ = not (divides(expr) or any(e[0] == "mean" for e in leaves(expr)) and expr[0] in ("-", "/"))
    finite = all(math.isfinite(v) for v in want[1])
    if len(base[1]) != n or finite and not all(close(a, b) for a, b in zip(base[1], want[1])):
        res.fail("weigher-arithmetic", f"{expr}: expected {want[1][:6]}, got {base[1][:6]}")
        return
    for d in scn["deliveries"]:
        res.fault("delivery:" + d["kind"])
        got = attempt(lambda: weights(d["order"], d["cols"]))
        res.state(["weigh", expr, d["kind"], d["cols"], n])
        if got[0] != "ok":
            res.fail("order-matters", f"{expr} delivered {d}: {got}")
            return
        if len(d["order"]) > 1:
            res.nontrivial = True
        if not finite or not steady_ and any(abs(v) > 1e6 for v in base[1]):
            continue
        for k, i in enumerate(d["order"]):
            if not close(got[1][k], base[1][i], 1e-6 if divides(expr) else 1e-7):
                res.fail("order-matters", f"{expr} delivered {d['kind']} {d['order'][:8]} columns {d['cols']}: record {i} "
                         f"{rows[i]} has weight {got[1][k]} instead of {base[1][i]}")
                return
        for spec in scn["filters"]:
            wts = np.array(base[1])
            first = [bool(v) for v in pipes.make_filter(spec).filter(wts)]
            flt = pipes.make_filter(spec)
            then = [bool(v) for v in flt.filter(wts[d["order"]])]
            if len(then) != n or any(then[k] != first[i] for k, i in enumerate(d["order"])):
                res.fail("order-matters", f"filter {spec} of {base[1][:8]} in the order {d['order'][:8]}: {then[:8]}, {first[:8]}")
                return
            stat = flt.get_latest_statistics()
            if stat["n_rows"] != sum(first) or stat["n_filtered_points"] != n - sum(first):
                res.fail("filter-statistics", f"{spec}: {stat}, kept {sum(first)} of {n}")
                return


def influence(scn, res):
    import numpy as np

    import hrosailing.models as mod

    rows = scn["rows"]
    n = len(rows)
    names = ["TWS", "TWA", "BSP"] if scn["layout"] == "true" else ["AWS", "AWA", "BSP"]

    def corrected(order, columns):
        model = (mod.IdentityInfluenceModel() if scn["model"][0] == "identity"
                 else mod.WindAngleCorrectingInfluenceModel(interval_size=scn["model"][1]))
        vals = {}
        for c in columns:
            if c in NAMES:
                vals[names[NAMES.index(c)]] = [float(rows[i][NAMES.index(c)]) for i in order]
        model.fit(vals)
        return np.asarray(model.remove_influence(vals), dtype=float).tolist()

    base = attempt(lambda: corrected(range(n), NAMES))
    res.log(f"influence {scn['model']} {scn['layout']} -> {base[0]} {h(base[1])}")
    if base[0] != "ok" or len(base[1]) != n:
        res.fail("influence", f"{scn['model']} {scn['layout']}: {base}")
        return
    for d in scn["deliveries"]:
        res.fault("delivery:" + d["kind"])
        res.state(["influence", scn["model"], d["kind"], n])
        got = attempt(lambda: corrected(d["order"], d["cols"]))
        if got[0] != "ok" or len(got[1]) != n:
            res.fail("order-matters", f"{scn['model']} delivered {d}: {got}")
            return
        res.nontrivial = True
        for k, i in enumerate(d["order"]):
            a, b = got[1][k], base[1][i]
            if not (close(a[0], b[0]) and abs((a[1] - b[1] + 180) % 360 - 180) < 1e-6 and close(a[2], b[2])):
                res.fail("order-matters", f"{scn['model']} delivered {d['kind']} {d['order'][:8]} columns {d['cols']}: "
                         f"record {i} {rows[i]} became {a} instead of {b}")
                return


def lookup(scn, res):
    import numpy as np

    import hrosailing.polardiagram as pol

    rows = scn["rows"]
    n = len(rows)
    kind = scn["kind"]

    def cloud(order):
        return pol.PolarDiagramPointcloud(array_of(rows, order))

    def table(ws_order, wa_order, shift=0.0):
        ws = sorted({r[0] for r in rows})[:6]
        wa = sorted({r[1] for r in rows})[:7]
        val = {(w, a): rows[(i * 5 + j * 3) % n][2] + shift for i, w in enumerate(ws) for j, a in enumerate(wa)}
        w2 = [ws[i] for i in ws_order if i < len(ws)]
        a2 = [wa[i] for i in wa_order if i < len(wa)]
        return pol.PolarDiagramTable(w2, a2, [[val[w, a] for w in w2] for a in a2])

    def diagram(order, which):
        if kind == "cloud":
            return cloud(order)
        if kind == "table":
            return table([i % 7 for i in dict.fromkeys(v % 7 for v in order)] + [i for i in range(7) if i not in {v % 7 for v in order}],
                         [i for i in dict.fromkeys(v % 7 for v in reversed(order))] + [i for i in range(7) if i not in {v % 7 for v in order}])
        parts = [("A", table(range(7), range(7))), ("B", table(range(7), range(7), 0.5)), ("C", table(range(7), range(7), -0.25))]
        if which:
            parts = parts[which:] + parts[:which]
        return pol.PolarDiagramMultiSails([p for _, p in parts], [s for s, _ in parts])

    def answers(pd):
        out = []
        qs = [list(q) for q in scn["queries"]] + [rows[0][:2], rows[-1][:2]]
        for ws, wa in qs:
            if kind == "cloud":
                kw = {"neighbourhood": pipes.make_nhood(scn["nhood"])}
                if scn["interp"]:
                    kw["interpolator"] = pipes.make_interp(scn["interp"])
                out.append(attempt(lambda: float(pd(ws, wa, **kw))))
            elif kind == "table":
                kw = {"interpolator": pipes.make_interp(scn["interp"])} if scn["interp"] else {}
                out.append(attempt(lambda: float(pd(ws, wa, **kw))))
            else:
                def best():
                    v = pd(ws, wa)
                    return [float(v[0]), str(v[1])] if isinstance(v, tuple) else float(v)

                out.append(attempt(best))
        if kind != "multi":
            def slices():
                got = pd.get_slices([rows[0][0]], **({"range_": 2} if kind == "cloud" else {}))
                pts = np.asarray(got[1][0] if isinstance(got, tuple) else got[0], dtype=float)
                return sorted([float(v) for v in p] for p in pts.T)

            out.append(attempt(slices))
        return out

    def flat(v):
        if isinstance(v, list):
            return [x for e in v for x in flat(e)]
        return [v]

    def grid():
        """the boat speeds of the table, by wind"""
        ws = sorted({r[0] for r in rows})[:6]
        wa = sorted({r[1] for r in rows})[:7]
        return ws, wa, [[rows[(i * 5 + j * 3) % n][2] for i in range(len(ws))] for j in range(len(wa))]

    base = answers(diagram(list(range(n)), 0))
    res.log(f"lookup {kind} -> {h(base)}")
    for k, d in enumerate(scn["deliveries"]):
        res.fault("delivery:" + d["kind"])
        res.state(["lookup", kind, d["kind"], n])
        pd = diagram(d["order"], k + 1)
        if kind == "table":
            ws, wa, speeds = grid()
            has = [np.asarray(v, dtype=float).tolist() for v in (pd.wind_speeds, pd.wind_angles, pd.boat_speeds)]
            if has != [ws, wa, speeds]:
                res.fail("table-scrambled", f"delivered {d['kind']}: winds {ws} x {wa} {speeds} became {has}"[:600])
                return
        got = answers(pd)
        res.nontrivial = True
        for a, b in zip(base, got):
            fa, fb = flat(a[:2] if a[0] == "err" else a), flat(b[:2] if b[0] == "err" else b)
            if len(fa) != len(fb) or not all(x == y or not isinstance(x, str) and not isinstance(y, str) and close(x, y)
                                             for x, y in zip(fa, fb)):
                res.fail("order-matters", f"{kind} {scn['interp']} {scn['nhood']} delivered {d['kind']} {d['order'][:8]}: "
                         f"{str(a)[:150]} became {str(b)[:150]}")
                return


def numbers(v):
    """(shape with the numbers left out, numbers) of a canonical picture"""
    if isinstance(v, dict):
        keys = sorted(v)
        parts = [numbers(v[k]) for k in keys]
        return [keys, [p[0] for p in parts]], [x for p in parts for x in p[1]]
    if isinstance(v, list):
        parts = [numbers(x) for x in v]
        return [len(v), [p[0] for p in parts]], [x for p in parts for x in p[1]]
    if isinstance(v, str):
        try:
            return "#", [float(v)]
        except ValueError:
            return v, []
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return "#", [float(v)]
    return v, []


def without(stats, key):
    if isinstance(stats, dict):
        return {k: without(v, key) for k, v in stats.items() if k != key}
    return stats


def pipe(scn, ctx, res):
    cfg, call = scn["cfg"], scn["call"]

    curve = cfg["extension"] if cfg["extension"][0] == "curve" else None

    def run(part, k):
        train = pipes.make_inputs(part["train"], cfg, ctx.scratch, f"train{k}")
        test = pipes.make_inputs(part["test"], cfg, ctx.scratch, f"test{k}")
        rec = pipes.Recorder()
        out = pipes.call_pipeline(pipes.build(cfg, None, rec), train, test, call["flags"], [], None, scn["seed"])
        seen = [e["args"][0] for e in rec.events if e["site"] == "extension.process"]
        points = sorted([float(v) for v in p] + [float(w)] for p, w in zip(seen[0]["data"], seen[0]["weights"])) if seen else []
        if out[0] != "ok":
            return list(out), points
        pic = pipes.canon_output(out[1])
        if curve:  # several parameters can fit equally well
            pic["diagram"] = misfit(out[1].polardiagram, points, curve)
            pic["training"].pop("quality_assurance", None)
            pic["test"].pop("quality_assurance", None)
        return ["ok", pic], points

    base, points = run(call, 0)
    res.log(f"pipe -> {base[0]} {base[1] if base[0] == 'err' else h(base[1]['diagram'])}")
    for k, d in enumerate(scn["deliveries"]):
        res.fault("pipeline:" + d["kind"])
        got, others = run(d, k + 1)
        res.state([cfg, d["kind"], got[0]])
        if len(points) != len(others) or not all(close(x, y) for p, q in zip(points, others) for x, y in zip(p, q)):
            res.fail("order-matters", f"delivery {k} ({d['kind']}): the diagram is made of {len(points)} points {points[:3]}, then of "
                     f"{len(others)} points {others[:3]}")
            return
        if base[0] != got[0] or base[0] == "err" and base[1] != got[1]:
            res.fail("order-matters", f"delivery {k} ({d['kind']}): {str(base)[:200]} became {str(got)[:200]}")
            return
        if base[0] == "err":
            res.count("err_" + base[1])
            continue
        res.nontrivial = True
        parts = ["diagram"]
        for name, part in (("training", "train"), ("test", "test")):
            if len(call[part] or []) == len(d[part] or []) and (d["kind"] in ("rows", "columns") or len(call[part] or []) < 2):
                parts.append(name)
        for part in parts:
            a, b = base[1][part], got[1][part]
            if part != "diagram":
                # ties of weights are counted by rounding
                a, b = (without(x, "quantiles") for x in (a, b))
            elif curve:
                if not close(a, b, 0.05, 1e-4):
                    res.fail("order-matters", f"delivery {k} ({d['kind']}): the curve misses its points by {a}, then by {b}")
                    return
                continue
            (sa, na), (sb, nb) = numbers(a), numbers(b)
            if sa != sb or len(na) != len(nb):
                res.fail("order-matters", f"delivery {k} ({d['kind']}): {part} {str(a)[:200]} became {str(b)[:200]}")
                return
            for x, y in zip(na, nb):
                if not close(x, y):
                    res.fail("order-matters", f"delivery {k} ({d['kind']}): {part}: {x} became {y}")
                    return


def misfit(pd, points, spec):
    import numpy as np

    pts = np.array(points)
    wa = np.deg2rad(pts[:, 1]) if spec[3] else pts[:, 1]
    fitted = pipes.model_function(spec[2])[0](pts[:, 0], wa, *pd.parameters)
    return float(np.sqrt(np.mean((fitted - pts[:, 2]) ** 2)))


def execute(scn, ctx):
    res = ctx.res
    res.sim_time = float(scn["rows"][-1][4]) if scn["rows"] else 0.0
    if scn["op"] == "pipe":
        pipe(scn, ctx, res)
    elif scn["op"] == "weigh":
        weigh(scn, res)
    elif scn["op"] == "influence":
        influence(scn, res)
    else:
        lookup(scn, res)


def shrink(scn):
    def copy():
        return json.loads(json.dumps(scn))

    n = len(scn["rows"])
    if n > 1:
        for drop in ([range(n // 2), range(n // 2, n)] if n > 3 else []) + [[i] for i in range(n)]:
            gone = set(drop)
            keep = [i for i in range(n) if i not in gone]
            if not keep:
                continue
            c = copy()
            c["rows"] = [scn["rows"][i] for i in keep]
            for d in c["deliveries"]:
                d["order"] = [keep.index(i) for i in d["order"] if i not in gone]
            yield c
    if scn["op"] == "weigh":
        def smaller(e):
            if e[0] in ("num", "arr"):
                return
            for sub in e[1:]:
                if e[0] in ("neg", "pow", "+", "-", "*", "/") and isinstance(sub, list) and sub[0] not in ("num", "arr"):
                    yield sub
                    for s in smaller(sub):
                        yield s

        for e in smaller(scn["expr"]):
            c = copy()
            c["expr"] = e
            yield c
    if scn["op"] == "pipe":
        for key, simple in (("expander", ["lazy"]), ("influence_model", ["identity"]),
                            ("pre_expander_weigher", ["one"]), ("pre_influence_weigher", ["one"]),
                            ("post_weigher", ["one"]), ("pre_expander_filter", ["quantile", 0]),
                            ("pre_influence_filter", ["quantile", 0]), ("post_filter", ["quantile", 0])):
            if scn["cfg"].get(key) != simple:
                c = copy()
                c["cfg"][key] = simple
                yield c
        if scn["call"]["test"]:
            c = copy()
            c["call"]["test"] = None
            for d in c["deliveries"]:
                d["test"] = None
            yield c
