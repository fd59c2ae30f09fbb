"""C14: samplers give n admissible points for every outcome of the random sources."""
import itertools
import math
import random

from sim import pipes
from sim.core import SimStop, StepBudget

RUNS = {"quick": 1500, "thorough": 100000}
LEVEL = "exploration"
RULE = ("A run samples from seeded arrangements of points with random sources controlled by the "
        "simulator: generators that reject, repeat, hit corners and edges for a bounded time, and every "
        "(small) or seeded shuffles of the points; each result is checked for number, place, step bound "
        "and untouched input. Non-trivial: a sample came back. Distinct by digest.")
STATE_MEASURE = "distinct (sampler, arrangement, random plan, result)"
REAL = "UniformRandomSampler, FibonacciSampler, ArchimedeanSampler, scipy ConvexHull"
STUB = "numpy random generator and shuffle"
ASSUMPTIONS = ["a random generator stays adversarial for at most 40 calls in a row, then draws fairly",
               "admissible: inside the convex hull up to 1e-7 of its size",
               "arrangements of (nearly) no area may be refused"]
SHRINK_LISTS = [("uses",), lambda s: [("uses", i, "pts") for i in range(len(s["uses"]))]]


def gen_points(rng):
    n = rng.choice([3, 3, 4, 4, 5, 8, 20, 60])
    if rng.random() < 0.06:  # almost at one place
        scale = 10.0 ** -rng.randint(2, 7)
        a, b = rng.uniform(5, 20), rng.choice([0.0, 90.0, 200.0])
        return [[a + scale * rng.random(), b + scale * rng.random()] for _ in range(n)]
    if rng.random() < 0.04:  # a hull with many corners
        n = rng.choice([90, 150])
        return [[10 + 5 * math.cos(2 * math.pi * i / n), 100 + 50 * math.sin(2 * math.pi * i / n)] for i in range(n)]
    kind = rng.choice(["rand", "int", "grid", "few", "table", "circle", "symmetric", "line"])
    if kind == "rand":
        return [[rng.uniform(0, 40), rng.uniform(0, 360)] for _ in range(n)]
    if kind == "int":
        return [[rng.randint(0, 4), rng.randint(0, 4)] for _ in range(n)]
    if kind == "grid":
        return [[a, b] for a in sorted(rng.sample(range(1, 20), rng.randint(2, 4)))
                for b in sorted(rng.sample(range(0, 360, 15), rng.randint(2, 6)))]
    if kind == "few":
        return [[rng.choice([1.0, 5.0, 9.0]), rng.choice([0.0, 45.0, 90.0])] for _ in range(n)]
    if kind == "table":
        return [[rng.uniform(4, 20), float(rng.choice(range(0, 360, 5)))] for _ in range(n * 2)]
    if kind == "circle":
        return [[10 + 5 * math.cos(2 * math.pi * i / n), 100 + 5 * math.sin(2 * math.pi * i / n)] for i in range(n)]
    if kind == "symmetric":
        r = rng.choice([1.0, 7.5])
        pts = [[r, 0.0], [-r, 0.0], [0.0, r], [0.0, -r]]
        return pts[: rng.choice([3, 4])] + ([[0.0, 0.0]] if rng.random() < 0.5 else [])
    return [[float(i), 2.0 * i] for i in range(n)]


def gen_plan(rng):
    """per call of the generator: what it draws"""
    if rng.random() < 0.06:  # unlucky for a long time
        return ["miss"] * rng.choice([60, 150, 400])
    out = []
    for _ in range(rng.choice([0, 0, 2, 5, 12, 40])):
        out.append(rng.choice(["corner", "corner", "vertex", "low", "high", "repeat", "edge", "outside", "middle", "fair"]))
    return out


def generate(rng, tier):
    uses = []
    for _ in range(rng.randint(1, 3)):
        uses.append({"pts": gen_points(rng), "plan": gen_plan(rng), "seed": rng.randrange(10**6),
                     "int": rng.random() < 0.1, "perms": rng.choice(["all", "some", "sorted", "reverse"])})
    return {"sampler": rng.choice(["uniform", "uniform", "fibonacci", "archimedean"]),
            "n": rng.choice([1, 1, 2, 3, 5, 10, 50, 200]), "uses": uses}


def hull(pts):
    pts = sorted(set(map(tuple, pts)))
    if len(pts) < 3:
        return pts, 0.0

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    h = half(pts) + half(pts[::-1])
    area = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1])) / 2
    return h, area


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def outside(p, h):
    """Distance of p outside of the hull h (counter-clockwise); negative inside"""
    worst = -1e300
    for a, b in zip(h, h[1:] + h[:1]):
        d = math.dist(a, b)
        worst = max(worst, -cross(a, b, p) / d)
    return worst


def install(use, perm, res):
    """All random sources of the next operation"""
    import numpy as np

    h, _ = hull(use["pts"])
    fair = random.Random(use["seed"])
    plan = list(use["plan"])
    drawn = {"calls": 0}
    # the corners of the enclosing rectangle that are no admissible points
    ends = [(min(p[i] for p in h), max(p[i] for p in h)) if h else (0, 0) for i in (0, 1)]
    drawn["away"] = [c for c in itertools.product(*ends) if len(h) > 2 and outside(c, h) > 0]
    pipes.seed_random(use["seed"])
    real = np.random.default_rng

    class Adversary(np.random.Generator):
        def uniform(self, low=0.0, high=1.0, size=None):
            if np.ndim(low) or np.ndim(high):  # the coordinates together
                shape = np.broadcast_shapes(np.shape(low), np.shape(high), () if size is None else np.empty(size).shape)
                los, his = np.broadcast_to(low, shape), np.broadcast_to(high, shape)
                if len(shape) != 2 or shape[1] != 2 or (los != los[:1]).any() or (his != his[:1]).any():
                    return super().uniform(low, high, size)
                return np.column_stack([self.uniform(float(los[0, j]), float(his[0, j]), shape[0]) for j in range(2)])
            k = drawn["calls"] // 2  # one coordinate after the other
            drawn["calls"] += 1
            if k >= len(plan) or size is None or plan[k] == "fair":
                return super().uniform(low, high, size)
            kind = plan[k]
            res.fault(f"random-{kind}")
            count = int(np.prod(size))
            if kind == "miss":
                if not drawn["away"]:
                    return super().uniform(low, high, size)
                return np.full(size, drawn["away"][k % len(drawn["away"])][(drawn["calls"] - 1) % 2], dtype=float)
            if kind in ("low", "corner"):
                out = [low] * count
            elif kind == "high":
                out = [high] * count
            elif kind == "middle":
                out = [(low + high) / 2] * count
            elif kind == "repeat":
                out = [low + (high - low) * fair.random()] * count
            else:
                axis = (drawn["calls"] - 1) % 2
                if axis == 0 or "pick" not in drawn:
                    drawn["pick"] = [fair.randrange(len(h)) for _ in range(count)]
                    drawn["mix"] = [1.0 if kind == "vertex" else fair.random() for _ in range(count)]
                    drawn["off"] = [0.0 if kind != "outside" else 10.0 ** fair.uniform(-6.5, -0.5)
                                    for _ in range(count)]
                out = []
                for i in range(count):
                    j = drawn["pick"][i % len(drawn["pick"])]
                    w = drawn["mix"][i % len(drawn["mix"])]
                    a, b = h[j], h[(j + 1) % len(h)]
                    away = (b[1] - a[1], a[0] - b[0])[axis] * drawn["off"][i % len(drawn["off"])]
                    out.append(min(high, max(low, w * a[axis] + (1 - w) * b[axis] + away)))
            return np.array(out, dtype=float).reshape(size)

    def default_rng(seed=None):
        if seed is not None:
            return real(seed)
        return Adversary(np.random.PCG64(use["seed"]))

    np.random.default_rng = default_rng

    def shuffle(x):
        if perm is not None and len(perm) == len(x):
            res.fault("chosen-shuffle")
            x[:] = np.array(x)[list(perm)]
        else:
            np.random.RandomState(use["seed"]).shuffle(x)

    np.random.shuffle = shuffle

    def permutation(x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        shuffle(x)
        return x

    np.random.permutation = permutation


def perms_of(use):
    n = len(use["pts"])
    if use["perms"] == "all" and n <= 4:
        return list(itertools.permutations(range(n)))
    if use["perms"] == "sorted":
        return [sorted(range(n), key=lambda i: use["pts"][i])]
    if use["perms"] == "reverse":
        return [sorted(range(n), key=lambda i: [-x for x in use["pts"][i]])]
    r = random.Random(use["seed"])
    return [r.sample(range(n), n) for _ in range(6)]


def execute(scn, ctx):
    import numpy as np

    res = ctx.res
    sampler = pipes.make_sampler(scn["sampler"], scn["n"])
    n = scn["n"]
    for use in scn["uses"]:
        h, area = hull(use["pts"])
        size = max((math.dist(a, b) for a in h for b in h), default=0.0)
        box = [max(p[i] for p in use["pts"]) - min(p[i] for p in use["pts"]) for i in (0, 1)] if use["pts"] else [0, 0]
        rounding = 16 * np.finfo(float).eps * max((abs(x) for p in h for x in p), default=0.0)
        degenerate = len(h) < 3 or area < 1e-9 * size * size or area < 0.004 * box[0] * box[1] or \
            area < 0.004 * size * size
        if degenerate and area > 1e-9 * size * size:
            continue  # so thin that the number of steps is not worth the time
        ints = use["int"] and all(float(x).is_integer() for p in use["pts"] for x in p)
        perms = perms_of(use) if scn["sampler"] != "uniform" else [None]
        for perm in perms:
            pts = np.array(use["pts"], dtype=int if ints else float).reshape(-1, 2)
            given = pts.copy()
            install(use, perm, res)
            label = f"{scn['sampler']}({n}) of {len(pts)} points, plan {use['plan'][:4]}, shuffle {perm}"
            budget = 100_000 + 400 * n + int(100 * n * size * size / max(area, 1e-12) if not degenerate else 0) \
                + 200 * len(pts) ** 2
            try:
                with StepBudget(budget):
                    out = sampler.sample(pts)
            except SimStop as exc:
                res.fail("sampling-does-not-end", f"{label}: {exc}")
                return
            except Exception as exc:  # pylint: disable=broad-except
                res.log(label, type(exc).__name__)
                if not degenerate:
                    res.fail("refused", f"{label}: {exc!r}")
                res.count("refused_degenerate")
                if not np.array_equal(pts, given):
                    res.fail("points-changed", label)
                continue
            if not np.array_equal(pts, given) or pts.dtype != given.dtype:
                res.fail("points-changed", label)
            out = np.asarray(out)
            res.log(label, repr(out.tolist())[:80])
            res.state([scn["sampler"], n, use["pts"], use["plan"], repr(out.tolist())])
            if out.shape != (n, 2):
                res.fail("number-of-samples", f"{label}: shape {out.shape}")
                continue
            if degenerate:
                continue
            res.nontrivial = True
            res.count("samples", n)
            for p in out:
                if not np.all(np.isfinite(p)) or outside(p, h) > 1e-7 * size + rounding:
                    res.fail("sample-outside", f"{label}: {p} is {outside(p, h)} outside")
                    break
