"""C15: diagram edits change exactly what was asked for."""
import json
import math
import os
import warnings

from sim.core import h, record_exception, run_in_child

RUNS = {"quick": 1200, "thorough": 100000}
LEVEL = "exploration"
RULE = ("A run edits several diagrams (accepted and rejected edits), looks values up, symmetrizes, saves and "
        "loads; the process is restarted or dies in the middle of a save, after which only the files count. "
        "After every step all diagrams are compared with their reference models. Non-trivial: an accepted edit "
        "and a lookup happened. Distinct by digest.")
STATE_MEASURE = "distinct (operation, content of the diagram after it)"
REAL = "PolarDiagramTable, PolarDiagramPointcloud, PolarDiagramCurve, PolarDiagramMultiSails, from_csv, to_csv"
STUB = "disk: system calls below the scratch directory pass a shim that ends the process at a chosen byte"
ASSUMPTIONS = ["a file whose save was interrupted is not loaded again before it is saved anew (that is C03)",
               "tables have no duplicate wind speeds or angles (the constructor warns of them)"]
SHRINK_LISTS = [("ops",)]

WS = [0.0, 2.0, 4.0, 6.0, 7.5, 8.0, 10.0, 12.5, 14.0, 16.0, 20.0, 25.0]
SLOTS = 3


def val(rng):
    return rng.choice([rng.randint(0, 20), round(rng.uniform(0, 20), 2), rng.uniform(-3, 20), 0])


def angles(rng, n):
    side = rng.choice(["right", "right", "left", "both"])
    pool = {"right": range(0, 361, 1), "left": range(360, 720, 1), "both": range(0, 720, 1)}[side]
    wa = rng.sample(list(pool), n)
    if rng.random() < 0.4:
        wa = [x for x in wa if x not in (0, 360)] + rng.choice([[0], [360], [0, 360]])
    return [x / 2 for x in dict.fromkeys(wa)]


def gen_table(rng):
    ws = rng.sample(WS, rng.randint(1, 5))
    wa = angles(rng, rng.randint(1, 6))
    if rng.random() < 0.6:
        ws.sort()
        wa.sort()
    return {"kind": "table", "ws": ws, "wa": wa, "bsps": [[val(rng) for _ in ws] for _ in wa]}


def gen_point(rng):
    return [rng.choice(WS[1:] + [round(rng.uniform(0.1, 30), 2)]), rng.randrange(0, 1440) / 2 - rng.choice([0, 0, 360]),
            val(rng)]


def gen_new(rng):
    r = rng.random()
    if r < 0.45:
        return gen_table(rng)
    if r < 0.55:
        ws = rng.choice([rng.sample(WS[1:], rng.randint(1, 4)), rng.choice([5, 10, 13]), None])
        wa = rng.choice([angles(rng, rng.randint(1, 5)), rng.choice([45, 90, 50]), None if ws is not None else 60])
        return {"kind": "zero", "ws": ws, "wa": wa}
    if r < 0.62:
        from sim.diagrams import gen_curve

        return gen_curve(rng, nasty=False)
    if r < 0.85:
        return {"kind": "cloud", "pts": [gen_point(rng) for _ in range(rng.choice([0, 1, rng.randint(2, 8)]))],
                "ints": rng.random() < 0.2}
    ws = rng.sample(WS, rng.randint(1, 3))
    n = rng.randint(1, 3)
    pds = []
    for _ in range(n):
        t = gen_table(rng)
        pds.append({"kind": "table", "ws": ws, "wa": t["wa"], "bsps": [[val(rng) for _ in ws] for _ in t["wa"]]})
    return {"kind": "multi", "pds": pds, "sails": rng.choice([None, ["Main", "Genoa", "Spi"][:n], ["Jib"]])}


BAD_CHANGE = ["shape", "shape", "nan", "inf", "text", "unknown_ws", "unknown_wa", "negative_ws", "empty_ws", "none", "extra_ws", "extra_wa"]
BAD_ADD = ["zero_ws", "negative_ws", "nan", "inf", "short", "long", "flat", "text"]


def gen_op(rng):
    s = rng.randrange(SLOTS)
    r = rng.random()
    if r < 0.12:
        return {"op": "new", "slot": s, "spec": gen_new(rng)}
    if r < 0.42:
        k, m = rng.randint(1, 4), rng.randint(1, 4)
        return {"op": "change", "slot": s, "sail": rng.randrange(3),
                "wsi": None if rng.random() < 0.3 else [rng.randrange(40) for _ in range(k)],
                "wai": None if rng.random() < 0.3 else [rng.randrange(80) for _ in range(m)],
                "shift": rng.choice([0, 0, 0, 360, -360]), "form": rng.choice(["list", "array", "tuple", "mixed"]),
                "vals": [val(rng) for _ in range(rng.randint(1, 9))],
                "bad": rng.choice(BAD_CHANGE) if rng.random() < 0.25 else None}
    if r < 0.57:
        return {"op": "add", "slot": s, "pts": [gen_point(rng) for _ in range(rng.randint(1, 4))],
                "apparent": rng.random() < 0.25, "form": rng.choice(["list", "array"]),
                "ints": rng.random() < 0.2, "bad": rng.choice(BAD_ADD) if rng.random() < 0.3 else None,
                "again": [[rng.randrange(1000), rng.choice(["same", "other", "other"])] for _ in range(rng.randint(1, 3))]
                if rng.random() < 0.3 else []}
    if r < 0.65:
        return {"op": "sym", "slot": s, "to": rng.randrange(SLOTS)}
    if r < 0.82:
        return {"op": "look", "slot": s, "i": rng.randrange(1000), "shift": rng.choice([0, 360, -360, 720])}
    if r < 0.86:
        return {"op": "scribble", "slot": s}
    if r < 0.92:
        return {"op": "save", "slot": s, "path": rng.randrange(3)}
    if r < 0.96:
        return {"op": "load", "slot": s, "path": rng.randrange(3)}
    if r < 0.985:
        return {"op": "crash", "slot": s, "path": rng.randrange(3), "at": rng.random()}
    return {"op": "restart"}


def generate(rng, tier):
    ops = [{"op": "new", "slot": i, "spec": gen_new(rng)} for i in range(rng.randint(1, SLOTS))]
    ops += [gen_op(rng) for _ in range(rng.randint(6, 24 if tier == "quick" else 40))]
    return {"ops": ops}


# ------------------------------------------------------------------ models
def table_model(ws, wa, bsps):
    ws, wa = [float(w) for w in ws], [float(a) % 360 for a in wa]
    rows = sorted(range(len(wa)), key=lambda i: wa[i])
    cols = sorted(range(len(ws)), key=lambda j: ws[j])
    return {"kind": "table", "ws": [ws[j] for j in cols], "wa": [wa[i] for i in rows],
            "bsps": [[float(bsps[i][j]) for j in cols] for i in rows]}


def new_model(spec):
    if spec["kind"] == "table":
        return table_model(spec["ws"], spec["wa"], spec["bsps"])
    if spec["kind"] == "zero":
        ws, wa = spec["ws"], spec["wa"]
        ws = range(2, 42, 2) if ws is None else ws
        wa = range(0, 360, 5) if wa is None else wa
        ws = ws if not isinstance(ws, int) else range(ws, 40, ws)
        wa = wa if not isinstance(wa, int) else range(wa, 360, wa)
        return table_model(list(ws), list(wa), [[0] * len(list(ws)) for _ in wa])
    if spec["kind"] == "curve":
        return {"kind": "curve", "f": spec["f"], "params": list(spec["params"]), "radians": spec["radians"], "sym": 0}
    if spec["kind"] == "cloud":
        pts = int_points(spec["pts"]) if spec["ints"] else spec["pts"]
        return {"kind": "cloud", "pts": [[float(p[0]), float(p[1]) % 360, float(p[2]), 0] for p in pts]}
    sails = list(spec["sails"] or [])
    sails += [f"Sail {i}" for i in range(len(sails), len(spec["pds"]))]
    return {"kind": "multi", "sails": sails, "pds": [new_model(p) for p in spec["pds"]]}


def int_points(pts):
    return [[max(1, int(p[0])), int(p[1]), int(p[2])] for p in pts]


def true_wind(pt):
    """Independent wind triangle: apparent wind and boat speed give true wind."""
    aws, awa, bsp = pt
    x = aws * math.sin(math.radians(awa))
    y = aws * math.cos(math.radians(awa)) - bsp
    return [math.hypot(x, y), math.degrees(math.atan2(x, y)) % 360, bsp, 1]


def target(model, sail):
    if model["kind"] == "multi":
        return model["pds"][sail % len(model["pds"])]
    return model


def resolve_change(op, t):
    """(new_bsps, ws, wa, rows, cols, matrix, rejected) of a change operation"""
    cols = list(range(len(t["ws"])) if op["wsi"] is None else dict.fromkeys(i % len(t["ws"]) for i in op["wsi"]))
    rows = list(range(len(t["wa"])) if op["wai"] is None else dict.fromkeys(i % len(t["wa"]) for i in op["wai"]))
    it = iter(range(10**6))
    mat = [[op["vals"][next(it) % len(op["vals"])] + 0.001 * (i * len(cols) + j) for j in range(len(cols))]
           for i in range(len(rows))]
    ws = None if op["wsi"] is None else [t["ws"][j] for j in cols]
    wa = None if op["wai"] is None else [t["wa"][i] + op["shift"] for i in rows]
    if len(rows) == 1:
        new = list(mat[0])
    elif len(cols) == 1:
        new = [r[0] for r in mat]
    else:
        new = [list(r) for r in mat]
    bad = op["bad"]
    if bad == "shape":
        new = new + new[-1:]
    elif bad in ("nan", "inf", "text", "none"):
        x = {"nan": math.nan, "inf": math.inf, "text": "fast", "none": None}[bad]
        if isinstance(new[-1], list):
            new[-1][-1] = x
        else:
            new[-1] = x
    elif bad == "unknown_ws":
        ws = (ws or t["ws"])[:-1] + [99.75]
    elif bad == "unknown_wa":
        wa = (wa or t["wa"])[:-1] + [0.123]
    elif bad == "extra_ws":  # the boat speeds fit to the known ones
        ws = [99.75] + (ws or t["ws"])
    elif bad == "extra_wa":
        wa = (wa or t["wa"]) + [0.123]
    elif bad == "negative_ws":
        ws = (ws or t["ws"])[:-1] + [-3.0]
    elif bad == "empty_ws":
        ws, new = [], []
    return new, ws, wa, rows, cols, mat


def add_points_of(op):
    """(points to hand over, points expected in the cloud or None)"""
    pts = [list(p) for p in op["pts"]]
    if op["ints"]:
        pts = int_points(pts)
    want = [true_wind(p) if op["apparent"] else [float(p[0]), float(p[1]) % 360, float(p[2]), 0] for p in pts]
    bad = op["bad"]
    if bad in ("zero_ws", "negative_ws"):
        if op["apparent"]:
            return pts, want  # a calm apparent wind is a valid measurement
        pts[-1][0] = {"zero_ws": 0, "negative_ws": -2}[bad]
    elif bad == "nan":
        pts[0][2] = math.nan
    elif bad == "inf":
        pts[-1][1] = math.inf
    elif bad == "short":
        pts = [p[:2] for p in pts]
    elif bad == "long":
        pts = [p + [1.0] for p in pts]
    elif bad == "flat":
        pts = pts[0]
    elif bad == "text":
        pts = [[p[0], p[1], "fast"] for p in pts]
    return pts, None if bad else want


def measured_again(op, m):
    """The operation with further points at winds that the cloud holds already"""
    if op["op"] != "add" or not op.get("again") or not m or m["kind"] != "cloud" or op["apparent"]:
        return op
    known = [p for p in m["pts"] if p[0] > 0 and p[3] == 0]
    if not known:
        return op
    pts = [known[i % len(known)] for i, _ in op["again"]]
    more = [[p[0], p[1], p[2] if how == "same" else p[2] + 1.5] for p, (_, how) in zip(pts, op["again"])]
    return dict(op, pts=op["pts"] + more)


def symmetric(m):
    """Model of the mirrored diagram, None if its angles are on both sides"""
    if m["kind"] == "multi":
        pds = [symmetric(p) for p in m["pds"]]
        return None if None in pds else {"kind": "multi", "sails": list(m["sails"]), "pds": pds}
    if m["kind"] == "curve":
        return dict(m, sym=m["sym"] + 1)
    if m["kind"] == "cloud":
        return {"kind": "cloud", "pts": [list(p) for p in m["pts"]] +
                [[p[0], (360 - p[1]) % 360, p[2], p[3]] for p in m["pts"]]}
    if not (all(a <= 180 for a in m["wa"]) or all(a >= 180 or a == 0 for a in m["wa"])):
        return None
    rows = dict(zip(m["wa"], m["bsps"]))
    for a, r in zip(m["wa"], m["bsps"]):
        rows[(360 - a) % 360] = list(r)
    return table_model(m["ws"], list(rows), list(rows.values()))


def step_model(st, op):
    """One operation on the models only: {"slots": [...], "fs": {...}}; returns whether it was accepted"""
    k = op["op"]
    if k == "new":
        st["slots"][op["slot"]] = new_model(op["spec"])
        return True
    if k in ("restart", "scribble", "crash"):
        return True
    m = st["slots"][op["slot"]]
    if k == "load":
        if str(op["path"]) not in st["fs"]:
            return None
        st["slots"][op["slot"]] = json.loads(json.dumps(st["fs"][str(op["path"])]))
        return True
    if m is None:
        return None
    if k == "change":
        if m["kind"] in ("cloud", "curve"):
            return None
        t = target(m, op["sail"])
        if m["kind"] == "multi" and m["sails"].count(m["sails"][op["sail"] % len(m["pds"])]) > 1:
            return None
        if op["bad"]:
            return False
        _, _, _, rows, cols, mat = resolve_change(op, t)
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                t["bsps"][r][c] = float(mat[i][j])
        return True
    if k == "add":
        if m["kind"] != "cloud":
            return None
        want = add_points_of(op)[1]
        if want is None:
            return False
        m["pts"].extend(want)
        return True
    if k == "sym":
        s = symmetric(m)
        if s is None:
            return None
        st["slots"][op["to"]] = s
        return True
    if k == "save":
        if m.get("sym"):
            return None  # a mirrored curve is no model function that could be loaded
        st["fs"][str(op["path"])] = json.loads(json.dumps(m))
        return True
    return True


# -------------------------------------------------------------- comparison
def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def wrap_close(a, b):
    d = abs(a - b) % 360
    return a == b or min(d, 360 - d) < 1e-5  # an arccosine near 0 or 180 degrees


def differs(model, pd):
    import numpy as np

    k = model["kind"]
    name = type(pd).__name__
    if name != {"table": "PolarDiagramTable", "cloud": "PolarDiagramPointcloud", "multi": "PolarDiagramMultiSails",
                "curve": "PolarDiagramCurve"}[k]:
        return f"is a {name}"
    if k == "curve":
        if [float(p) for p in pd.parameters] != [float(p) for p in model["params"]] or pd.radians is not model["radians"]:
            return f"parameters {pd.parameters}, radians {pd.radians}"
        return None
    if k == "multi":
        if list(pd.sails) != model["sails"]:
            return f"sails {pd.sails}, should be {model['sails']}"
        if len(pd.diagrams) != len(model["pds"]):
            return f"{len(pd.diagrams)} diagrams"
        for s, d, m in zip(model["sails"], pd.diagrams, model["pds"]):
            why = differs(m, d)
            if why:
                return f"{s}: {why}"
        return None
    if k == "table":
        got = {"ws": np.asarray(pd.wind_speeds).tolist(), "wa": np.asarray(pd.wind_angles).tolist(),
               "bsps": np.asarray(pd.boat_speeds).tolist()}
        for key, x in got.items():
            if x != model[key]:
                return f"{key} {str(x)[:300]}, should be {str(model[key])[:300]}"
        return None
    got = sorted(map(list, np.asarray(pd.points).tolist()))
    want = sorted(model["pts"])
    exact = not any(p[3] for p in want)
    if len(got) != len(want):
        return f"{len(got)} points, should be {len(want)}"
    if exact:
        if got != [p[:3] for p in want]:
            return f"points {str(got)[:300]}, should be {str(want)[:300]}"
    else:
        left = [list(p) for p in got]
        for p in want:
            for q in left:
                if (close(p[0], q[0]) and wrap_close(p[1], q[1]) and close(p[2], q[2])) if p[3] else p[:3] == q:
                    left.remove(q)
                    break
            else:
                return f"point {p} is missing in {str(got)[:300]}"
    if sorted(np.asarray(pd.boat_speeds).tolist()) != sorted(p[2] for p in got):
        return f"boat_speeds {pd.boat_speeds}"
    if np.asarray(pd.wind_speeds).tolist() != sorted({p[0] for p in got}):
        return f"wind_speeds {pd.wind_speeds}"
    if np.asarray(pd.wind_angles).tolist() != sorted({p[1] for p in got}):
        return f"wind_angles {pd.wind_angles}"
    return None


def curve_value(model, ws, wa):
    """(boat speed of the curve at wa degrees, size of the numbers it is made of)"""
    import numpy as np
    import hrosailing.core.modelfunctions as mf

    f = getattr(mf, model["f"])
    both = [float(f(ws, np.deg2rad(a) if model["radians"] else a, *model["params"])) for a in (wa, 360 - wa)]
    out = sum(both) / 2 if model["sym"] else both[0]
    return out, 1 + abs(both[0]) + abs(both[1])


def curve_close(got, want):
    return math.isnan(want[0]) or math.isinf(want[1]) or abs(got - want[0]) <= 1e-6 * want[1]


def look(ctx, model, pd, op):
    """Lookups of recorded wind give the recorded boat speed"""
    import numpy as np

    res = ctx.res
    k = model["kind"]
    if k == "curve":
        ws, wa = WS[1:][op["i"] % (len(WS) - 1)], 0.5 + (op["i"] * 7) % 359
        unit = math.pi / 180 if model["radians"] else 1
        want = curve_value(model, ws, wa)
        got = float(ctx.must("lookup", pd, ws, (wa + op["shift"]) * unit))
        if not curve_close(got, want):
            res.fail("lookup:curve", f"({ws}, {wa}+{op['shift']}) is {got}, should be {want[0]}")
        _, sl = ctx.must("get_slices", pd.get_slices, [ws], wa_resolution=9)
        for w, a, b in np.asarray(sl[0]).T.tolist()[1:-1]:
            if w != ws or not curve_close(b, curve_value(model, ws, a)):
                res.fail("slices:curve", f"({w}, {a}) is {b}, should be {curve_value(model, ws, a)[0]}")
        return True
    if k == "table":
        i, j = op["i"] % len(model["wa"]), op["i"] % len(model["ws"])
        ws, wa = model["ws"][j], model["wa"][i]
        want = model["bsps"][i][j]
        for label, fn in (("item", lambda: pd[ws, wa + op["shift"]]), ("call", lambda: pd(ws, wa + op["shift"]))):
            got = ctx.must("lookup", fn)
            if float(got) != want:
                res.fail("lookup:table", f"{label} ({ws}, {wa}+{op['shift']}) is {got}, recorded {want}")
        pts = ctx.must("get_points", pd.get_points)
        want = sorted([w, a, model["bsps"][y][x]] for x, w in enumerate(model["ws"]) for y, a in enumerate(model["wa"]))
        if sorted(np.asarray(pts).tolist()) != want:
            res.fail("points:table", f"{pts.tolist()}")
        grid = ctx.must("get_points", pd.get_points, (np.array(model["ws"]), np.array(model["wa"])))
        if sorted(np.asarray(grid).tolist()) != want:
            res.fail("points:table", f"grid {grid.tolist()}")
        lab, sl = ctx.must("get_slices", pd.get_slices, [ws])
        got = sorted(np.asarray(sl[0]).T.tolist())
        if list(lab) != [ws] or got != [[ws, a, model["bsps"][y][j]] for y, a in enumerate(model["wa"])]:
            res.fail("slices:table", f"{ws}: {got}")
    elif k == "cloud":
        pts = [p for p in model["pts"] if p[0] > 0 and not p[3]]
        if not pts:
            return False
        p = pts[op["i"] % len(pts)]
        near = {q[2] for q in model["pts"] if close(q[0], p[0]) and wrap_close(q[1], p[1])}
        got = ctx.must("lookup", pd, p[0], p[1] + op["shift"])
        if float(got) not in near:
            res.fail("lookup:cloud", f"({p[0]}, {p[1]}+{op['shift']}) is {got}, recorded {sorted(near)}")
        _, sl = ctx.must("get_slices", pd.get_slices, [p[0]], range_=1.5)
        got = sorted(np.asarray(sl[0]).T.tolist())
        if not any(q[3] for q in model["pts"]) and \
                got != sorted(q[:3] for q in model["pts"] if abs(q[0] - p[0]) <= 1.5):
            res.fail("slices:cloud", f"{p[0]}: {got}")
    else:
        i = op["i"] % len(model["pds"])
        sail = model["sails"][i]
        if model["sails"].count(sail) == 1:
            why = differs(model["pds"][i], ctx.must("sail", lambda: pd[sail]))
            if why:
                res.fail("sail", f"{sail}: {why}")
        wa = [a for a in model["pds"][0]["wa"] if all(a in t["wa"] for t in model["pds"])]
        ws = [w for w in model["pds"][0]["ws"] if all(w in t["ws"] for t in model["pds"])]
        if wa and ws:
            a, w = wa[op["i"] % len(wa)], ws[op["i"] % len(ws)]
            want = max(t["bsps"][t["wa"].index(a)][t["ws"].index(w)] for t in model["pds"])
            got = ctx.must("lookup", pd, w, a)
            if float(got) != want:
                res.fail("lookup:multi", f"({w}, {a}) is {got}, best recorded {want}")
        _, sl, info = ctx.must("get_slices", pd.get_slices, [model["pds"][0]["ws"][0]], full_info=True)
        got = sorted([s] + list(r) for s, r in zip(info[0], np.asarray(sl[0]).T.tolist()))
        w = model["pds"][0]["ws"][0]
        want = sorted([s, w, a, t["bsps"][y][t["ws"].index(w)]] for s, t in zip(model["sails"], model["pds"])
                      for y, a in enumerate(t["wa"]))
        if got != want:
            res.fail("slices:multi", f"{got}, should be {want}")
    return True


def outcome(fn, *args, **kwargs):
    import numpy as np

    try:
        x = fn(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__
    if isinstance(x, tuple):
        return [np.asarray(y, dtype=float).tolist() for y in [x[0], *x[1]]]
    return np.asarray(x, dtype=float).tolist()


def near(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(near, a, b))
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, list) or isinstance(b, list):
        return a == b
    return a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def fresh_one(pd):
    """A diagram without a past that was made from the present entries"""
    import numpy as np
    import hrosailing.polardiagram as pol

    if isinstance(pd, pol.PolarDiagramTable):
        return pol.PolarDiagramTable(*[np.array(x) for x in (pd.wind_speeds, pd.wind_angles, pd.boat_speeds)])
    if isinstance(pd, pol.PolarDiagramPointcloud):
        return pol.PolarDiagramPointcloud(np.array(pd.points))
    return pol.PolarDiagramMultiSails([fresh_one(p) for p in pd.diagrams], list(pd.sails))


def look_between(res, pd, op):
    """Away from the entries the diagram answers like one that was made with its present entries"""
    i = op["i"]
    new = fresh_one(pd)
    winds = [(0.7 + (i * 13 + k * 31) % 170 / 7, (i * 17 + k * 101) % 720 / 2 + 0.3 + op["shift"]) for k in range(3)]
    if hasattr(pd, "points"):
        p = pd.points[i % len(pd.points)].tolist() if len(pd.points) else [5, 50]
        winds += [(p[0] + 0.3, p[1] + 0.2)]
    winds += [(a[0], b) for a, (_, b) in zip(winds, winds[1:])]
    for ws, wa in winds:
        a, b = outcome(pd, ws, wa), outcome(new, ws, wa)
        if not near(a, b):
            res.fail("lookup:between", f"({ws}, {wa}) is {a}, in a diagram made of the present entries it is {b}")
            return
    res.count("between")
    for ws in ([winds[0][0], winds[1][0]], 4, None):
        a, b = (outcome(x.get_slices, ws) for x in (pd, new))
        if not near(a, b):
            res.fail("slices:between", f"{ws}: {str(a)[:300]}, in a diagram made of the present entries {str(b)[:300]}")
            return


# --------------------------------------------------------------- execution
def build(spec):
    import numpy as np
    import hrosailing.polardiagram as pol

    if spec["kind"] == "table":
        return pol.PolarDiagramTable(list(spec["ws"]), list(spec["wa"]), [list(r) for r in spec["bsps"]])
    if spec["kind"] == "zero":
        return pol.PolarDiagramTable(spec["ws"], spec["wa"])
    if spec["kind"] == "curve":
        import hrosailing.core.modelfunctions as mf

        return pol.PolarDiagramCurve(getattr(mf, spec["f"]), *spec["params"], radians=spec["radians"])
    if spec["kind"] == "cloud":
        pts = int_points(spec["pts"]) if spec["ints"] else spec["pts"]
        return pol.PolarDiagramPointcloud(np.array(pts).reshape(-1, 3))
    return pol.PolarDiagramMultiSails([build(p) for p in spec["pds"]], spec["sails"] and list(spec["sails"]))


def give(x, form):
    import numpy as np

    if x is None:
        return None
    if form == "array":
        return np.array(x)
    if form == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in x)
    if form == "mixed" and len(x) == 1 and not isinstance(x[0], list):
        return x[0]
    return x


def step_real(ctx, st, objs, op, path):
    """One operation on the real diagrams (st: models before it); True if it was accepted"""
    import hrosailing.polardiagram as pol

    k = op["op"]
    if k == "new":
        objs[op["slot"]] = ctx.must("construct", build, op["spec"])
    elif k == "load":
        objs[op["slot"]] = ctx.must("load", pol.from_csv, path(op["path"]))
    elif k == "change":
        model = st["slots"][op["slot"]]
        t = target(model, op["sail"])
        new, ws, wa = resolve_change(op, t)[:3]
        obj = objs[op["slot"]]
        if model["kind"] == "multi":
            obj = obj[model["sails"][op["sail"] % len(model["pds"])]]
        try:
            form = "list" if op["bad"] == "shape" else op["form"]
            obj.change_entries(give(new, form), give(ws, op["form"]), give(wa, op["form"]))
        except Exception as exc:  # pylint: disable=broad-except
            return False, exc
    elif k == "add":
        pts = add_points_of(op)[0]
        try:
            objs[op["slot"]].add_points(give(pts, op["form"]), apparent_wind=op["apparent"])
        except Exception as exc:  # pylint: disable=broad-except
            return False, exc
    elif k == "sym":
        objs[op["to"]] = ctx.must("symmetrize", objs[op["slot"]].symmetrize)
    elif k == "save":
        ctx.must("save", objs[op["slot"]].to_csv, path(op["path"]))
    elif k == "scribble":
        obj = objs[op["slot"]]
        if st["slots"][op["slot"]]["kind"] == "curve":
            return True, None
        for name in ("boat_speeds", "wind_speeds", "wind_angles", "points", "default_points", "default_slices"):
            try:
                x = getattr(obj, name)
            except (AttributeError, ValueError):
                continue
            x[...] = -77
        if hasattr(obj, "sails"):
            obj.sails.append("x")
            obj.diagrams.clear()
    return True, None


def life(ctx, ops, fs, first):
    """One process: runs ops; returns (models of the files, index of the operation that ended it)"""
    res = ctx.res
    st = {"slots": [None] * SLOTS, "fs": fs}
    objs = [None] * SLOTS

    def path(i):
        return os.path.join(ctx.scratch, f"boat{i}.csv")

    def compare(label):
        for i in range(SLOTS):
            if st["slots"][i] is not None:
                why = differs(st["slots"][i], objs[i])
                if why:
                    res.fail(f"content:{st['slots'][i]['kind']}", f"{label}: diagram {i}: {why}")
                    return False
        return True

    if not first:
        import hrosailing.polardiagram as pol

        for i in sorted(fs):
            why = differs(fs[i], ctx.must("load", pol.from_csv, path(i)))
            if why:
                res.fail("file-after-restart", f"boat{i}: {why}")
    for n, op in enumerate(ops):
        k = op["op"]
        label = f"{json.dumps(op)[:400]}"
        if k == "restart":
            return n
        if k == "crash":
            if st["slots"][op["slot"]] is None or st["slots"][op["slot"]].get("sym"):
                continue
            obj = objs[op["slot"]]
            size = os.path.join(ctx.scratch, "probe.csv")
            ctx.must("save", obj.to_csv, size)
            total = sum(os.path.getsize(os.path.join(ctx.scratch, f)) for f in os.listdir(ctx.scratch)
                        if f.startswith("probe"))

            def dies():
                ctx.disk.begin({"crash_at": int(op["at"] * total)})
                obj.to_csv(path(op["path"]))
                ctx.disk.end()

            run_in_child(dies)
            for f in os.listdir(ctx.scratch):
                if f.startswith("probe"):
                    os.unlink(os.path.join(ctx.scratch, f))
            fs.pop(str(op["path"]), None)
            res.fault("crash-in-save")
            res.log("crash", op["path"])
            return n
        if k in ("look", "scribble"):
            if st["slots"][op["slot"]] is None:
                continue
            if k == "look":
                if look(ctx, st["slots"][op["slot"]], objs[op["slot"]], op):
                    res.count("lookups")
                    if st["slots"][op["slot"]]["kind"] != "curve" and op["i"] % 3 == 0:
                        look_between(res, objs[op["slot"]], op)
            else:
                step_real(ctx, st, objs, op, path)
        else:
            op = measured_again(op, st["slots"][op["slot"]] if k == "add" else None)
            before = json.loads(json.dumps(st))
            accepted = step_model(st, op)
            if accepted is None:
                continue
            got, exc = step_real(ctx, before, objs, op, path)
            if got and not accepted:
                res.fail(f"not-rejected:{k}:{op['bad']}", label)
                return n
            if accepted and not got:
                res.fail(f"rejected:{k}", f"{label}: {exc!r}")
                return n
            if accepted:
                res.count(k)
            else:
                res.fault(f"rejected-{k}-{op['bad']}")
        if not compare(label) or res.violations:
            return n
        slot = st["slots"][op.get("to", op["slot"])]
        res.state([k, slot])
        res.log(k, op["slot"], h(json.dumps(slot)))
    return len(ops)


def execute(scn, ctx):
    res = ctx.res
    ops, fs, first = list(scn["ops"]), {}, True
    while ops and not res.violations:
        def body(ops=ops, fs=fs, first=first):
            warnings.simplefilter("ignore")
            ctx.res = type(res)()
            n = 0
            try:
                n = life(ctx, ops, fs, first)
            except BaseException as exc:  # pylint: disable=broad-except
                if not record_exception(ctx.res, exc):
                    raise
            return {"v": ctx.res.violations, "f": ctx.res.faults, "c": ctx.res.counts,
                    "s": sorted(ctx.res.states), "t": ctx.res.trace, "n": n, "fs": fs}

        st, out = run_in_child(body)
        if out is None:
            raise RuntimeError(f"process died with {st}")
        res.violations.extend(tuple(v) for v in out["v"])
        for key, n in out["f"].items():
            res.fault(key, n)
        for key, n in out["c"].items():
            res.count(key, n)
        res.states.update(out["s"])
        res.trace.extend(out["t"])
        fs, first = out["fs"], False
        ops = ops[out["n"] + 1:]
        if ops or out["n"] < len(scn["ops"]):
            res.fault("process-restart")
    res.nontrivial = bool((res.counts.get("change") or res.counts.get("add")) and res.counts.get("lookups"))
