"""C21: plots show their diagram, whatever was drawn, failed or configured before."""
import json
import math

from sim.core import SimStop, h
from sim.diagrams import build, content, diff, expected
from sim.props.c09 import Interrupt

RUNS = {"quick": 1200, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run draws tables, point clouds and multi-sail diagrams on several axes of all projections again and again, "
        "as lines, points, convex hulls or color gradients, with all kinds of colors and legends; between them it edits the "
        "diagrams, draws ordinary data, clears axes and lets plots fail (failing diagrams, unknown colors, bad arguments, "
        "an interrupt at a seeded line). After every step the new artists are compared with the reference model and "
        "all older artists and diagrams with their former state. Non-trivial: a diagram was drawn on axes used before "
        "or after a failed plot. Distinct by digest.")
STATE_MEASURE = "distinct (projection, drawing, kind of diagram, colors, number of slices, what the axes have seen before)"
REAL = "HROPolar, HROFlat, HROColorGradient, Axes3D, plot_* and scatter_*, get_slices, get_points of all diagrams"
STUB = "the canvas (matplotlib's Agg backend, mostly not rendered), failing diagrams, interrupts"
ASSUMPTIONS = ["slices at wind speeds a table has no column for, and points given by `wind`, are taken from a new diagram "
               "with the same content", "boat speeds of drawn diagrams are not negative"]
SHRINK_LISTS = [("ops",)]

WS = [2.0, 4.0, 6.0, 8.0, 10.0, 12.5, 16.0, 20.0]
PROJ = ["hro polar", "hro flat", "hro polar", "hro flat", "hro color gradient", "hro 3d"]
NAMED = ["red", "green", "blue", "black", "#ffa500", "c", "0.5", "tab:purple"]
KW = [{}, {}, {}, {"marker": "H"}, {"lw": 2}, {"ls": "--"}, {"linestyle": ":", "alpha": 0.3}, {"label": "x"}]


# ---------------------------------------------------------------- generation
def speed(rng):
    return rng.choice([float(rng.randint(0, 12)), round(rng.uniform(0, 15), 2), rng.uniform(0, 15), 0.0, 5.0])


def gen_angles(rng):
    n = rng.choice([1, 2, rng.randint(3, 9), rng.randint(3, 9)])
    wa = rng.sample(range(0, 720) if rng.random() < 0.7 else range(0, 361), n)
    wa = [x / 2 for x in wa]
    if rng.random() < 0.3:
        wa = sorted({*wa, 0.0})
    if rng.random() < 0.2:
        wa = [x for x in [45, 90, 135, 180, 225, 270, 315, 0] if rng.random() < 0.8] or [90]
    return [float(x) for x in wa]


def gen_table(rng, ws=None, wa=None):
    ws = ws or sorted(rng.sample(WS, rng.randint(1, 5)))
    wa = wa or gen_angles(rng)
    if rng.random() < 0.15:
        b = speed(rng)
        return {"kind": "table", "ws": ws, "wa": wa, "bsps": [[b for _ in ws] for _ in wa]}
    return {"kind": "table", "ws": ws, "wa": wa, "bsps": [[speed(rng) for _ in ws] for _ in wa]}


def gen_cloud(rng, n=None):
    n = n or rng.choice([1, 2, rng.randint(3, 14)])
    return {"kind": "cloud", "pts": [[rng.choice([*WS, round(rng.uniform(0.5, 22), 2)]), rng.randrange(0, 1440) / 4,
                                      speed(rng)] for _ in range(n)]}


def crowd(rng, cloud):
    """Points at nearly the same wind angle, in any order"""
    at = rng.choice(cloud["pts"])
    for _ in range(rng.randint(2, 4)):
        cloud["pts"].append([at[0], abs(round(at[1] + rng.randint(-40, 40) / 1000, 3)), speed(rng)])
    rng.shuffle(cloud["pts"])
    return cloud


def gen_diagram(rng):
    r = rng.random()
    if r < 0.4:
        return gen_table(rng)
    if r < 0.6:
        return crowd(rng, gen_cloud(rng)) if rng.random() < 0.3 else gen_cloud(rng)
    ws = sorted(rng.sample(WS, rng.randint(1, 3)))
    wa = gen_angles(rng) if rng.random() < 0.6 else None
    pds = [gen_cloud(rng) if rng.random() < 0.15 else gen_table(rng, ws, wa) for _ in range(rng.randint(1, 3))]
    return {"kind": "multi", "pds": pds, "sails": rng.choice([None, ["Main", "Genoa", "Spi"][:len(pds)], ["Jib", "Jib"]])}


def gen_colors(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.45:
        return rng.sample(NAMED if rng.random() < 0.4 else NAMED[:3], 2)
    if r < 0.6:
        return rng.choice(NAMED[:6])
    if r < 0.7:
        return {"rgb": rng.choice([[1, 0, 0], [0.25, 0.5, 0.75], [0, 0, 1, 1], [0.1, 0.2, 0.3, 0.4]])}
    if r < 0.85:
        return {"list": rng.sample(NAMED, rng.choice([1, 3, 4]))}
    return {"pairs": [[rng.randrange(20), rng.choice(NAMED)] for _ in range(rng.randint(1, 3))]}


def gen_draw(rng, slots):
    return {"op": "draw", "ax": rng.randrange(3), "pd": rng.randrange(slots), "how": rng.choice(["plot", "plot", "scatter"]),
            "ws": rng.choice([None, "own", "own", "one", "between", "any"]), "pick": rng.randrange(1000),
            "n_steps": rng.choice([None, None, None, 1, 3]), "colors": gen_colors(rng), "legend": rng.random() < 0.3,
            "hull": rng.random() < 0.3, "kw": rng.choice(KW), "wind": rng.choice([None, None, "points", "grid"]),
            "legend_kw": rng.random() < 0.3}


def generate(rng, tier):
    slots = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(2, 9 if tier == "quick" else 20)):
        r = rng.random()
        if r < 0.66:
            op = gen_draw(rng, slots)
            if rng.random() < 0.12:
                op["fault"] = rng.choice(["diagram", "diagram", "color", "colors", "ws", "kwarg", "legend_kw"])
            elif rng.random() < 0.1:
                op["interrupt"] = rng.choice([rng.randint(1, 15), rng.randint(1, 80), rng.randint(1, 400)])
            ops.append(op)
        elif r < 0.74:
            ops.append({"op": "plain", "ax": rng.randrange(3), "how": rng.choice(["plot", "scatter"]),
                        "x": [rng.randint(0, 6) for _ in range(3)], "y": [rng.randint(0, 6) for _ in range(3)]})
        elif r < 0.84:
            ops.append({"op": "edit", "pd": rng.randrange(slots), "seed": rng.randrange(10 ** 6), "sail": rng.randrange(3)})
        elif r < 0.9:
            ops.append({"op": "clear", "ax": rng.randrange(3)})
        elif r < 0.94:
            ops.append({"op": "new_axes", "ax": rng.randrange(3), "proj": rng.choice(PROJ)})
        elif r < 0.97:
            ops.append({"op": "function", "ax": rng.randrange(3), "draw": gen_draw(rng, slots), "proj": rng.choice(PROJ)})
        else:
            ops.append({"op": "render", "ax": rng.randrange(3)})
    return {"pds": [gen_diagram(rng) for _ in range(slots)], "axes": [rng.choice(PROJ) for _ in range(3)], "ops": ops}


# ----------------------------------------------------------------- reference
def labels_of(spec, op, default):
    import random

    if op["ws"] is None:
        ws = list(default)
    else:
        own = sorted({w for p in ([spec] if spec["kind"] == "table" else spec.get("pds", []))
                      if p["kind"] == "table" for w in p["ws"]} or {6.0, 10.0})
        r = random.Random(op["pick"])
        if op["ws"] == "one":
            return [r.choice(own)], r.choice(["scalar", "list"])
        if op["ws"] == "own":
            ws = r.sample(own, r.randint(1, len(own)))
            if r.random() < 0.8:
                ws.sort()
        elif op["ws"] == "between":
            ws = [own[0], (own[0] + own[-1]) / 2 + 0.25, own[-1] + 1]
        else:
            ws = [r.choice([*own, round(r.uniform(0, 22), 1)]) for _ in range(r.randint(1, 4))]
    return ws, ["list", "list", "list", "tuple", "array", "iter"][op["pick"] % 6]


def ws_arg(ws, form):
    import numpy as np

    return {"scalar": lambda: ws[0], "list": lambda: list(ws), "tuple": lambda: tuple(ws), "array": lambda: np.array(ws),
            "iter": lambda: iter(ws)}[form]()


def shown_args(kw):
    return {k: "iterator" if hasattr(v, "__next__") else repr(v) for k, v in kw.items()}


def with_steps(ws, n):
    if n is None:
        return list(ws)
    out = []
    for a, b in zip(ws, ws[1:]):
        out += [a + (b - a) * k / (n + 1) for k in range(n + 1)]
    return out + [ws[-1]]


def slice_of(spec, ws, fresh):
    """[(sail, wind angle, boat speed)] of the slice at ws, and None instead of the sail for a single diagram."""
    if spec["kind"] == "multi":
        sails = expected(spec)["sails"]
        return [(s, a, b) for s, p, f in zip(sails, spec["pds"], fresh.diagrams) for _, a, b in slice_of(p, ws, f)]
    e = expected(spec)
    if spec["kind"] == "cloud":
        return [(None, a, b) for w, a, b in e["pts"] if abs(w - ws) <= 1]
    if ws in e["ws"]:
        j = e["ws"].index(ws)
        return [(None, a, row[j]) for a, row in zip(e["wa"], e["bsps"])]
    _, (s,) = fresh.get_slices(ws)
    return [(None, float(a), float(b)) for a, b in zip(s[1], s[2])]


def points_of(spec):
    if spec["kind"] == "multi":
        return [q for p in spec["pds"] for q in points_of(p)]
    e = expected(spec)
    if spec["kind"] == "cloud":
        return [tuple(q) for q in e["pts"]]
    return [(w, a, e["bsps"][i][j]) for i, a in enumerate(e["wa"]) for j, w in enumerate(e["ws"])]


def colors_of(colors, values):
    """The documented colors of the slices as RGBA, None where they are not specified."""
    from matplotlib.colors import to_rgba

    n = len(values)
    if colors is None:
        colors = ["green", "red"]
    if isinstance(colors, str):
        return [to_rgba(colors)] * n
    if isinstance(colors, dict) and "rgb" in colors:
        return [to_rgba(colors["rgb"])] * n
    if isinstance(colors, dict) and "list" in colors:
        return [to_rgba(c) for c in (colors["list"] + ["blue"] * n)[:n]]
    if isinstance(colors, dict):
        return None
    if n <= 2:
        return None if n == 2 and values[0] >= values[1] else [to_rgba(c) for c in colors[:n]]
    lo, hi = min(values), max(values)
    if lo == hi:
        return None
    a, b = to_rgba(colors[0]), to_rgba(colors[1])
    return [tuple(p + (q - p) * (v - lo) / (hi - lo) for p, q in zip(a, b)) for v in values]


def colors_arg(colors, labels):
    """What the caller passes, and the expected colors."""
    from matplotlib.colors import to_rgba

    if isinstance(colors, dict) and "pairs" in colors:
        pairs, want = {}, [to_rgba("blue")] * len(labels)
        for i, c in colors["pairs"]:
            pairs.setdefault(labels[i % len(labels)], c)
        for w, c in pairs.items():
            want[labels.index(w)] = to_rgba(c)
        return list(pairs.items()), want
    if isinstance(colors, dict):
        value = tuple(colors["rgb"]) if "rgb" in colors else list(colors["list"])
    else:
        value = colors if colors is None or isinstance(colors, str) else tuple(colors)
    return value, colors_of(colors, labels)


def close(a, b, eps=1e-9):
    return abs(a - b) <= eps * (1 + abs(a) + abs(b))


def same_points(a, b):
    a, b = sorted(a), sorted(b)
    if len(a) == len(b) and all(close(p, q) for x, y in zip(a, b) for p, q in zip(x, y)):
        return True
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if all(close(p, q) for p, q in zip(x, y)):
                del rest[i]
                break
        else:
            return False
    return True


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_of(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    return half(pts) + half(reversed(pts))


def area(poly):
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(poly, poly[1:] + poly[:1]))) / 2


def cartesian(wa, bsp):
    return bsp * math.cos(math.radians(wa)), bsp * math.sin(math.radians(wa))


def check_hull(xs, ys, data):
    """None or what is wrong with the hull drawn through (xs, ys) in degrees."""
    if any(math.isnan(v) for v in [*xs, *ys]):
        return "undefined values"
    if any(a > b + 1e-9 for a, b in zip(xs, xs[1:])):
        return f"angles out of order: {xs}"
    pts = [cartesian(a, b) for a, b in data]
    hull = hull_of(pts)
    size = max((abs(c) for p in pts for c in p), default=0)
    # qhull may give up on arrangements of (nearly) no area and merge nearly collinear points
    if len(hull) < 3 or area(hull) < 1e-6 * size ** 2:
        return None
    drawn = list(zip(xs, ys))
    inner = [p for i, p in enumerate(drawn)
             if not (i in (0, len(drawn) - 1) and close(p[0], 0 if i == 0 else 360))]
    for p in inner:
        if not any(close(p[0], a) and close(p[1], b) for a, b in data):
            return f"{p} is not a point of the slice"
    inside = all(cross(a, b, (0.0, 0.0)) > 1e-7 * size * math.dist(a, b) for a, b in zip(hull, hull[1:] + hull[:1]))
    poly = [cartesian(a, b) for a, b in drawn]
    if inside:
        if not abs(area(poly) - area(hull)) <= 1e-6 * area(hull):
            return f"the drawn hull {drawn} has area {area(poly)}, the hull of the slice {area(hull)}"
        if not (close(xs[0], 0) and close(xs[-1], 360) or close(ys[0], ys[-1]) and close((xs[-1] - xs[0]) % 360, 0)):
            return f"the drawn hull is not closed: {drawn}"
    else:
        for v in hull:
            i = hull.index(v)
            a, b = hull[i - 1], hull[(i + 1) % len(hull)]
            if abs(cross(a, v, b)) > 1e-6 * size ** 2 and not any(math.dist(v, p) <= 1e-7 * size for p in poly):
                return f"the hull lacks {v}: {drawn}"
    return None


# ----------------------------------------------------------------- execution
def values(seq):
    import numpy as np

    return [float(v) for v in np.ma.filled(np.ma.asarray(seq, dtype=float), math.nan)]


def picture(ax):
    """Everything drawn on the axes."""
    import numpy as np
    from matplotlib.colors import to_rgba

    out = []
    for line in ax.lines:
        out.append([id(line), "line", values(line.get_xdata()), values(line.get_ydata()), list(to_rgba(line.get_color()))])
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            data = [values(v) for v in c._offsets3d]
        elif hasattr(c, "_vec"):
            data = np.asarray(c._vec, float).tolist()
        else:
            data = [values(p) for p in c.get_offsets()]
        if hasattr(c, "_offsets3d") or hasattr(c, "_vec"):  # shaded and sorted when it is rendered
            col = ends_of(c)
        else:
            col = [[float(v) for v in f] for f in c.get_facecolor()]
        out.append([id(c), "points", data, col])
    leg = ax.get_legend()
    if leg is not None:
        out.append([id(leg), "legend", *legend_of(leg)])
    return out


def ends_of(mappable):
    """The colors of the lowest and the highest value, where they are mapped"""
    if mappable.get_array() is None or mappable.get_cmap() is None:
        return None
    return [[float(v) for v in mappable.get_cmap()(x)] for x in (0.0, 1.0)]


def legend_of(leg):
    from matplotlib.colors import to_rgba

    return [t.get_text() for t in leg.get_texts()], [list(to_rgba(x.get_color())) for x in leg.get_lines()]


def near_colors(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))


def orientation(ax):
    if not hasattr(ax, "get_theta_direction"):
        return None
    return ax.get_theta_direction(), ax.get_theta_offset()


class World:
    def __init__(self, scn, ctx):
        import matplotlib.pyplot as plt

        self.plt, self.ctx, self.res = plt, ctx, ctx.res
        self.specs = json.loads(json.dumps(scn["pds"]))
        self.pds = [build(s) for s in self.specs]
        self.axes, self.seen = [], []
        for p in scn["axes"]:
            fig = plt.figure()
            self.axes.append(fig.add_subplot(projection=p))
            self.seen.append([])

    def pictures(self):
        # a legend is replaced by the next one
        return [{e[0]: e[1:] for e in picture(ax)} for ax in self.axes]

    def unchanged(self, k, before, cleared=None):
        for i, (old, new) in enumerate(zip(before, self.pictures())):
            # rendering projects what is drawn in three dimensions anew
            if i == cleared or cleared == "rendered" and self.axes[i].name == "hro 3d":
                continue
            for key, e in old.items():
                if e[0] == "legend" and key not in new:
                    continue
                if json.dumps(new.get(key)) != json.dumps(e):
                    self.res.fail("older-changed", f"step {k}: on axes {i}, {str(e)[:300]} became {str(new.get(key))[:300]}")
        for s, pd in zip(self.specs, self.pds):
            d = diff(expected(s), content(pd))
            if d:
                self.res.fail("diagram-changed", f"step {k}: {d}")

    # ------------------------------------------------------------- drawing
    def draw(self, k, op, i, function=False):
        plt, res = self.plt, self.res
        spec, pd = self.specs[op["pd"]], self.pds[op["pd"]]
        fresh = build(spec)
        ax = self.axes[i]
        proj = ax.name
        gradient = proj in ("hro color gradient", "hro 3d")
        before = {e[0] for e in picture(ax)}
        kw = dict(op["kw"])
        labels = []
        if gradient:
            colors = op["colors"] if isinstance(op["colors"], list) else None
            if colors:
                kw["colors"] = tuple(colors)
            kw = {q: v for q, v in kw.items() if q in ("colors", "alpha", "label")}
            pts = points_of(spec)
            if op["wind"] and spec["kind"] != "cloud":
                wind = self.wind(spec, op)
                try:
                    pts = [tuple(float(v) for v in p) for p in fresh.get_points(wind)]
                    kw["wind"] = wind
                except ZeroDivisionError:  # too far away from the entries of the table
                    pass
        else:
            ws, form = labels_of(spec, op, [float(v) for v in fresh.default_slices])
            labels = ws
            if op["ws"] is not None:
                kw["ws"] = ws_arg(ws, form)
            if op["n_steps"] is not None and form != "scalar":
                kw["n_steps"] = op["n_steps"]
                labels = with_steps(ws, op["n_steps"])
            value, want_colors = colors_arg(op["colors"], labels)
            if value is not None:
                kw["colors"] = value
            if op["hull"]:
                kw["use_convex_hull"] = True
        if op["legend"] and proj != "hro 3d":
            kw["show_legend"] = True
            n = len(pts) if gradient else len(labels)
            two = gradient or op["colors"] is None or isinstance(op["colors"], list)
            if op["legend_kw"] and two and n > 2:
                kw["legend_kw"] = {"orientation": "horizontal"}
            elif op["legend_kw"] and not gradient:
                kw["legend_kw"] = {"loc": "upper left", "title": "wind"}
        how = op["how"] if proj != "hro color gradient" or not function else "plot"
        target, expect_error = pd, None
        fault = op.get("fault")
        if fault == "diagram":
            target, expect_error = failing(pd, op["pick"]), "Broken"
        elif fault == "color":
            kw["color" if not gradient else "c"] = "no such color"
        elif fault == "colors":
            kw["colors"] = ["red", "no such color", "blue"]
        elif fault == "ws":
            kw["ws"] = "ten"
        elif fault == "kwarg":
            kw["no_such_argument"] = 1
        elif fault == "legend_kw":
            kw["show_legend"], kw["legend_kw"] = True, {"no_such_argument": 1}
        shown = shown_args(kw)
        turned = orientation(ax)
        figures = [len(a.figure.axes) for a in self.axes]
        irq = None
        try:
            with Interrupt(op.get("interrupt")) as irq:
                if function:
                    name = {"hro polar": "polar", "hro flat": "flat", "hro color gradient": "color_gradient", "hro 3d": "3d"}[proj]
                    import hrosailing.plotting as pl

                    getattr(pl, f"{how}_{name}")(target, **kw)
                else:
                    getattr(ax, how)(target, **kw)
            error = None
        except SimStop:
            raise
        except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
            error = exc
        if shown_args(kw) != shown:
            res.fail("arguments-changed", f"step {k}: {shown} became {shown_args(kw)}")
        if irq.hit:
            res.fault("interrupt")
        if fault:
            res.fault(f"plot:{fault}")
        if fault or irq.hit:
            if expect_error and type(error).__name__ != expect_error:
                res.fail("failure-hidden", f"step {k}: the diagram failed, but plotting returned {error!r}")
            if expect_error and [e for e in picture(ax) if e[0] not in before]:
                res.fail("failure-drawn", f"step {k}: the diagram failed, but something was drawn")
            if expect_error and figures != [len(a.figure.axes) for a in self.axes]:
                res.fail("failure-drawn", f"step {k}: the diagram failed, but axes were added")
            if expect_error and orientation(ax) != turned:
                res.fail("failure-turned", f"step {k}: the diagram failed, but the axes were turned")
            self.seen[i].append("failed" if error else "odd")
            res.log(k, op["op"], fault, irq.hit, type(error).__name__)
            res.count("failed plots")
            return
        what = f"step {k}: {how} of {spec['kind']} on {proj} {'hull ' if op['hull'] else ''}{shown}"
        if error is not None:
            if proj == "hro 3d" and how == "plot":  # a surface needs three points that span one
                res.count("no surface")
                self.seen[i].append("failed")
                return
            res.fail(f"raised:{type(error).__name__}", f"{what}: {error!r}")
            return
        if function:
            i2 = self.plt.gcf().axes[0]
            if i2 is not ax:
                res.fail("other-axes", f"{what}: drawn on {i2}")
        new = [e for e in picture(ax) if e[0] not in before]
        drawn = [e for e in new if e[1] != "legend"]
        if gradient:
            self.check_points(what, proj, how, drawn, pts, kw)
        else:
            slices = [slice_of(spec, w, fresh) for w in labels]
            self.check_slices(what, proj, how, drawn, slices, want_colors, spec, op, ax)
        self.check_legend(what, kw, op, ax, i, figures, labels if not gradient else [p[2] for p in pts], gradient, new)
        res.count(f"{proj} {how}")
        if self.seen[i]:
            res.nontrivial = True
        res.state([proj, how, spec["kind"], str(op["colors"])[:12], len(labels), op["hull"], sorted(set(self.seen[i]))])
        self.seen[i].append("drawn")
        res.log(k, proj, how, h(json.dumps([e[1:] for e in new])))

    def wind(self, spec, op):
        import random

        import numpy as np

        r = random.Random(op["pick"])
        ws = [r.choice(WS) for _ in range(r.randint(1, 4))]
        wa = [r.randrange(0, 360) * 1.0 for _ in range(r.randint(3, 5))]
        if op["wind"] == "grid":
            return (np.array(sorted(set(ws))), np.array(sorted(set(wa))))
        return np.array([[r.choice(ws), a] for a in wa])

    def check_points(self, what, proj, how, drawn, pts, kw):
        from matplotlib.colors import to_rgba

        res = self.res
        ends = kw.get("colors") or ("green", "red")
        if len(drawn) != 1 or drawn[0][1] != "points":
            res.fail("artists", f"{what}: {len(drawn)} artists")
            return
        e = drawn[0]
        if proj == "hro 3d":
            want = [(b * math.sin(math.radians(a)), b * math.cos(math.radians(a)), w) for w, a, b in pts]
            if e[3] and not (near_colors(e[3][0][:3], to_rgba(ends[0])[:3]) and near_colors(e[3][1][:3], to_rgba(ends[1])[:3])):
                res.fail("colors", f"{what}: from {e[3][0]} to {e[3][1]}")
            if how == "plot":
                got = list(zip(*e[2][:3]))
                for p in got:
                    if not any(all(abs(x - y) < 1e-6 for x, y in zip(p, q)) for q in want):
                        res.fail("surface", f"{what}: corner {p} is no point of the diagram")
                        return
                return
            got = list(zip(*e[2]))
            if not same_points(got, want):
                res.fail("points", f"{what}: {str(got)[:400]} instead of {str(want)[:400]}")
            return
        got = [tuple(p) for p in e[2]]
        if len(got) != len(pts) or not all(close(p[0], q[0]) and close(p[1], q[1]) for p, q in zip(got, pts)):
            if not same_points(got, [q[:2] for q in pts]):
                res.fail("points", f"{what}: {str(got)[:400]} instead of {str(pts)[:400]}")
            return
        want = colors_of(list(kw["colors"]) if "colors" in kw else None, [p[2] for p in pts] + [0, 20, 40])
        lo, hi = min(p[2] for p in pts), max(p[2] for p in pts)
        if any(math.isnan(v) for f in e[3] for v in f):
            res.fail("colors", f"{what}: undefined colors")
        elif hi > lo and len(pts) > 1:
            a, b = (to_rgba(c) for c in ends)
            want = [[p + (q - p) * (v[2] - lo) / (hi - lo) for p, q in zip(a[:3], b[:3])] for v in pts]
            if not all(near_colors(f[:3], w) for f, w in zip(e[3], want)):
                res.fail("colors", f"{what}: {e[3]} instead of {want}")

    def check_slices(self, what, proj, how, drawn, slices, want_colors, spec, op, ax):
        res = self.res
        if proj == "hro polar" and (ax.get_theta_direction() != -1 or not close(ax.get_theta_offset(), math.pi / 2)):
            res.fail("orientation", f"{what}: north {ax.get_theta_offset()} direction {ax.get_theta_direction()}")
        kind = "line" if how == "plot" else "points"
        if len(drawn) != len(slices) or any(e[1] != kind for e in drawn):
            res.fail("artists", f"{what}: {[e[1] for e in drawn]} for {len(slices)} slices")
            return
        for j, (e, s) in enumerate(zip(drawn, slices)):
            xs, ys = (e[2], e[3]) if kind == "line" else ([p[0] for p in e[2]], [p[1] for p in e[2]])
            if proj == "hro polar":
                xs = [math.degrees(x) for x in xs]
            data = [p[1:] for p in s]
            got = [(x, y) for x, y in zip(xs, ys) if not (math.isnan(x) or math.isnan(y))]
            if op["hull"]:
                wrong = check_hull(xs, ys, data) if kind == "line" else None
                if wrong:
                    res.fail("hull", f"{what}: slice {j} {s}: {wrong}")
                    return
            elif not same_points(got, data):
                res.fail("slice", f"{what}: slice {j} shows {got}, expected {data}")
                return
            elif kind == "line":
                parts, part = [], []
                for x, y in zip(xs, ys):
                    if math.isnan(x) or math.isnan(y):
                        parts.append(part)
                        part = []
                    else:
                        part.append((x, y))
                parts = [p for p in [*parts, part] if p]
                by_sail = {}
                for sail, a, b in s:
                    by_sail.setdefault(sail, []).append((a, b))
                rest = list(by_sail.values())
                for p in parts:
                    if any(a[0] > b[0] + 1e-9 for a, b in zip(p, p[1:])):
                        res.fail("order", f"{what}: slice {j} is drawn in the order {p}")
                        return
                    m = [q for q in rest if same_points(p, q)]
                    if not m:
                        res.fail("sails", f"{what}: slice {j} joins {p}, the sails are {by_sail}")
                        return
                    rest.remove(m[0])
            if "color" in op["kw"] or want_colors is None:
                continue
            want = want_colors[j]
            col = e[4] if kind == "line" else (e[3][0] if e[3] else None)
            if "alpha" in op["kw"] and col:
                col, want = col[:3], want[:3]
            if col is not None and not near_colors(col, want):
                res.fail("colors", f"{what}: slice {j} has color {col} instead of {want}")
                return
        if any(math.isnan(v) for e in drawn for v in (e[4] if kind == "line" else [x for f in e[3] for x in f])):
            res.fail("colors", f"{what}: undefined colors")

    def check_legend(self, what, kw, op, ax, i, figures, labels, gradient, new):
        res = self.res
        added = len(ax.figure.axes) - figures[i]
        legends = [e for e in new if e[1] == "legend"]
        for j, n in enumerate(figures):
            if j != i and len(self.axes[j].figure.axes) != n:
                res.fail("legend", f"{what}: something was added to axes {j}")
        if not kw.get("show_legend"):
            if added or legends:
                res.fail("legend", f"{what}: a legend nobody asked for")
            return
        two = op["colors"] is None or isinstance(op["colors"], list) or gradient
        if two and len(labels) > 2:
            if added != 1:
                res.fail("legend", f"{what}: {added} color bars")
                return
            bar = ax.figure.axes[-1]
            lo, hi = min(labels), max(labels)
            flat = "legend_kw" in kw
            name, lim = (bar.get_xlabel(), bar.get_xlim()) if flat else (bar.get_ylabel(), bar.get_ylim())
            if name != ("Boat Speed" if gradient else "True Wind Speed"):
                res.fail("legend", f"{what}: the {'horizontal ' if flat else ''}color bar is called {name!r}")
            elif hi - lo > 1e-6 * (1 + hi) and not (close(lim[0], lo) and close(lim[1], hi)):
                res.fail("legend", f"{what}: the color bar shows {lim} instead of {lo, hi}")
            from matplotlib.colors import to_rgba

            want = [to_rgba(c)[:3] for c in (kw.get("colors") or ("green", "red"))]
            for mesh in bar.collections:
                ends = ends_of(mesh)
                if ends and not all(near_colors(a[:3], b) for a, b in zip(ends, want)):
                    res.fail("legend", f"{what}: the color bar goes from {ends[0]} to {ends[1]}")
            return
        if gradient:
            return
        if len(legends) != 1:
            res.fail("legend", f"{what}: {len(legends)} legends")
            return
        title = ax.get_legend().get_title().get_text()
        if title != ("wind" if "legend_kw" in kw else ""):
            res.fail("legend", f"{what}: the legend has the title {title!r}")
            return
        texts, cols = legends[0][2], legends[0][3]
        value, want = colors_arg(op["colors"], labels)
        if isinstance(op["colors"], dict) and "pairs" in op["colors"]:
            from matplotlib.colors import to_rgba

            entries = [(f"TWS {w}", to_rgba(c)) for w, c in value]
        elif want is None:
            return
        else:
            n = len(labels)
            if isinstance(op["colors"], dict) and "list" in op["colors"]:
                n = min(n, len(op["colors"]["list"]))
            entries = [(f"TWS {w}", c) for w, c in zip(labels[:n], want)]
        ok = len(texts) == len(entries) == len(cols)
        for (t, c), text, col in zip(entries, texts, cols):
            ok = ok and near_colors(c, col) and text.startswith("TWS ") and close(float(text[4:]), float(t[4:]))
        if not ok:
            res.fail("legend", f"{what}: {texts} {cols} instead of {entries}")

    def edit(self, k, op):
        import random

        r = random.Random(op["seed"])
        spec, pd = self.specs[op["pd"]], self.pds[op["pd"]]
        if spec["kind"] == "multi":
            s = op["sail"] % len(spec["pds"])
            spec, pd = spec["pds"][s], pd.diagrams[s]
        if spec["kind"] == "cloud":
            new = gen_cloud(r, 2)["pts"]
            spec["pts"] += new
            pd.add_points(new)
            return
        e = expected(spec)
        vals = [[speed(r) for _ in e["ws"]] for _ in e["wa"]]
        spec.update(ws=e["ws"], wa=e["wa"], bsps=vals)
        pd.change_entries(vals if min(len(vals), len(vals[0])) > 1 else [v for row in vals for v in row])


class Broken(Exception):
    pass


def failing(pd, n):
    """The same diagram, but its n-th value or slice cannot be had."""
    import hrosailing.polardiagram as pol

    class Sick(pol.PolarDiagram):
        @property
        def default_slices(self):
            return pd.default_slices

        @property
        def default_points(self):
            raise Broken("simulated")

        def to_csv(self, csv_path):
            raise Broken("simulated")

        @classmethod
        def __from_csv__(cls, file):
            raise Broken("simulated")

        def symmetrize(self):
            raise Broken("simulated")

        def ws_to_slices(self, ws, **kwargs):
            if n % 2:
                raise Broken("simulated")
            return pd.ws_to_slices(ws, **kwargs)

        def get_slice_info(self, ws, slices, **kwargs):
            raise Broken("simulated")

        def __call__(self, ws, wa):
            raise Broken("simulated")

    return Sick()


def execute(scn, ctx):
    res = ctx.res
    w = World(scn, ctx)
    for k, op in enumerate(scn["ops"]):
        before = w.pictures()
        i = op.get("ax", 0)
        if op["op"] == "draw":
            w.draw(k, op, i)
            w.unchanged(k, before)
        elif op["op"] == "function":
            fig = w.plt.figure()
            before[i] = {}
            w.axes[i] = w.plt.subplot(projection=op["proj"])
            w.seen[i] = ["fresh"]
            if op["draw"]["how"] == "scatter" and op["proj"] == "hro color gradient":
                continue
            w.draw(k, op["draw"], i, function=True)
            del fig
            w.unchanged(k, before)
        elif op["op"] == "plain":
            ax = w.axes[i]
            had = {e[0] for e in picture(ax)}
            if ax.name == "hro 3d" and op["how"] == "plot":
                ctx.must("plain", ax.plot, op["x"], op["y"], op["y"])
            else:
                ctx.must("plain", getattr(ax, op["how"]), op["x"], op["y"])
            new = [e for e in picture(ax) if e[0] not in had]
            if len(new) != 1:
                res.fail("plain", f"step {k}: {len(new)} artists")
            elif ax.name != "hro 3d":
                got = list(zip(new[0][2], new[0][3])) if new[0][1] == "line" else [tuple(p) for p in new[0][2]]
                if got != [(float(x), float(y)) for x, y in zip(op["x"], op["y"])]:
                    res.fail("plain", f"step {k}: {got} instead of {list(zip(op['x'], op['y']))}")
            w.seen[i].append("plain")
            w.unchanged(k, before)
        elif op["op"] == "edit":
            ctx.must("edit", w.edit, k, op)
            w.unchanged(k, before)
        elif op["op"] == "clear":
            w.axes[i].clear()
            w.seen[i].append("cleared")
            w.unchanged(k, before, cleared=i)
        elif op["op"] == "new_axes":
            w.axes[i] = w.plt.figure().add_subplot(projection=op["proj"])
            w.seen[i] = []
        elif op["op"] == "render":
            ctx.must("render", w.axes[i].figure.canvas.draw)
            w.unchanged(k, before, cleared="rendered")
        if res.violations:
            return
