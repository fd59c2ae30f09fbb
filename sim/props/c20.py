"""C20: smoothed series follow the measured ones, however irregular the log is."""
import datetime as dt
import json

from sim.core import h

RUNS = {"quick": 3000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("A run sends the series of several instruments through a link that loses, repeats and holds back records while "
        "instruments stick at a value and the clock stands still, leaps or jumps backwards, and smoothes what arrived, "
        "log by log, with one or two smoothers that are used again and again, also after refused logs; every result is "
        "compared with the documented construction, evaluated independently per instrument. Non-trivial: a value was "
        "smoothed or a log refused. Distinct by digest.")
STATE_MEASURE = "distinct (lengths and distances of the constant parts of a series, timespan)"
REAL = "AffineSmoother, LazySmoother, Data"
STUB = "the instrument link and the clock of the log (seeded)"
ASSUMPTIONS = ["series are complete (the smoother follows the imputator)", "smoothed values may differ by rounding (1e-9)"]
SHRINK_LISTS = [("logs",), ("logs", 0, "rows"), ("logs", 1, "rows"), ("logs", 2, "rows")]

START = dt.datetime(2023, 3, 25, 23, 58, 0)
COLS = {"TWS": "float", "TWA": "float", "BSP": "float", "lat": "float", "crew": "str", "count": "int"}


def gen_log(rng, tier):
    n = rng.choice([0, 1, 2, 2, 3, rng.randint(4, 12), rng.randint(5, 16 if tier == "quick" else 60)])
    cols = rng.sample(sorted(COLS), rng.randint(1, len(COLS)))
    stick = {c: rng.choice([0, 0.3, 0.8, 1]) for c in cols}
    step = rng.choice([[1], [0, 1, 5], [10, 20, 30], [15, 60], [0.25, 7.5, 59.75], [3600, 1, 86400]])
    t, rows, last = 0.0, [], {}
    for i in range(n):
        row = {"t": t, "v": {}}
        for c in cols:
            if c in last and rng.random() < stick[c]:
                v = last[c]
            elif COLS[c] == "float":
                v = rng.choice([float(rng.randint(-3, 9)), rng.uniform(-50, 400), 0.0, last.get(c, 1.0) + 1e-7])
            else:
                v = i if COLS[c] == "int" else f"c{i % 3}"
            row["v"][c] = last[c] = v
        rows.append(row)
        t += rng.choice(step)
    # the link
    faults = []
    p = rng.choice([0, 0, 0.1, 0.4])
    out = []
    for row in rows:
        if rng.random() < p:
            faults.append("record lost")
            continue
        out.append(row)
        if rng.random() < p / 3:
            faults.append("record repeated")
            out.append(row)
    if len(out) > 1 and rng.random() < 0.15:
        i = rng.randrange(len(out) - 1)
        how = rng.choice(["held back", "held back", "clock jumps back"])
        faults.append(how)
        if how == "held back":
            out.insert(rng.randint(i + 1, len(out)), out.pop(i))
        else:
            back = rng.choice([1, 30, 1e5])
            out = out[: i + 1] + [{**r, "t": r["t"] - back} for r in out[i + 1:]]
    if out and rng.random() < 0.1:
        i = rng.randrange(len(out))
        faults.append("clock stands still")
        out = out[:i] + [{**r, "t": out[i]["t"]} if j < 3 else r for j, r in enumerate(out[i:])]
    return {"cols": cols, "rows": [[r["t"], *[r["v"][c] for c in cols]] for r in out], "faults": faults,
            "at": rng.choice([0, len(cols)]), "use": rng.randrange(2)}


def generate(rng, tier):
    return {"smoothers": [rng.choice([None, 0, 0.5, 5, 10, 30, 45.5, 3600, "lazy"]) for _ in range(2)],
            "logs": [gen_log(rng, tier) for _ in range(rng.randint(1, 4))]}


def pieces(xs, ys, span):
    """The documented series as a list of linear pieces (x0, y0, x1, y1)."""
    parts, out = [], []
    for x, y in zip(xs, ys):
        if parts and parts[-1][1] == y:
            parts[-1][0].append(x)
        else:
            parts.append(([x], y))
    for k, (at, y) in enumerate(parts):
        lo = xs[0] if k == 0 else (parts[k - 1][0][-1] + at[0]) / 2
        hi = xs[-1] if k == len(parts) - 1 else (at[-1] + parts[k + 1][0][0]) / 2
        y0 = y if k == 0 else (parts[k - 1][1] + y) / 2
        y1 = y if k == len(parts) - 1 else (parts[k + 1][1] + y) / 2
        inner = [(lo + hi) / 2] if hi - lo < 2 * span else [lo + span, hi - span]
        knots = [(lo, y0), *[(x, y) for x in inner], (hi, y1)]
        out += [(*a, *b) for a, b in zip(knots, knots[1:])]
    return out


def admissible(x, got, lin):
    eps = 1e-6
    best = None
    for x0, y0, x1, y1 in lin:
        if not x0 - eps <= x <= x1 + eps:
            continue
        if x1 - x0 <= eps:  # the clock stood still: every value in between
            lo, hi = min(y0, y1), max(y0, y1)
        else:
            mu = min(1, max(0, (x - x0) / (x1 - x0)))
            lo = hi = y0 + mu * (y1 - y0)
        tol = 1e-9 * (1 + abs(lo) + abs(hi)) + eps * 1e-3
        if x1 - x0 > eps:
            tol += abs(y1 - y0) * 2e-9 / (x1 - x0)
        if lo - tol <= got <= hi + tol:
            return None
        best = (lo, hi)
    return best or "nothing"


def picture(data):
    return [[c, type_name(data, c), [repr(v) for v in data[c]]] for c in data.keys()]


def type_name(data, c):
    t = data.type(c)
    return getattr(t, "__name__", str(t))


def execute(scn, ctx):
    from hrosailing.core.data import Data
    from hrosailing.processing import AffineSmoother, LazySmoother

    res = ctx.res
    tools = []
    for s in scn["smoothers"]:
        if s == "lazy":
            tools.append((LazySmoother(), None))
        elif s is None:
            tools.append((AffineSmoother(), 30.0))
        else:
            tools.append((AffineSmoother(dt.timedelta(seconds=s)), float(s)))
    earlier = []
    for k, log in enumerate(scn["logs"]):
        tool, span = tools[log["use"]]
        xs = [r[0] for r in log["rows"]]
        cols = {c: [r[j + 1] for r in log["rows"]] for j, c in enumerate(log["cols"])}
        stamps = [START + dt.timedelta(seconds=x) for x in xs]
        names = list(log["cols"])
        names.insert(log["at"], "datetime")
        data = Data.from_dict({c: list(stamps if c == "datetime" else cols[c]) for c in names})
        for f in log["faults"]:
            res.fault(f)
        before = picture(data)
        ordered = all(a <= b for a, b in zip(xs, xs[1:]))
        res.sim_time += abs(xs[-1] - xs[0]) if xs else 0
        try:
            out = tool.smooth(data)
        except ValueError as exc:
            if span is None or ordered:
                res.fail("refused", f"log {k} in order of time: {exc!r}")
            res.count("refused logs")
            res.nontrivial = True
            out = None
        if picture(data) != before:
            res.fail("input-changed", f"log {k}")
        if out is None:
            continue
        if span is not None and not ordered:
            res.fail("disorder-accepted", f"log {k}: times {xs}")
            continue
        if span is None or len(xs) < 2:
            if picture(out) != before:
                res.fail("changed", f"log {k} of {len(xs)} records: {before} became {picture(out)}")
            continue
        if list(out.keys()) != names or out.n_rows != len(xs):
            res.fail("shape", f"log {k}: columns {list(out.keys())} with {out.n_rows} rows, expected {names} with {len(xs)}")
            continue
        for c in names:
            got = list(out[c])
            if len(got) != len(xs):
                res.fail("shape", f"log {k}: column {c} has {len(got)} values instead of {len(xs)}")
                continue
            if COLS.get(c) != "float":
                if got != (stamps if c == "datetime" else cols[c]):
                    res.fail("other-column", f"log {k}: {c} became {got}")
                continue
            lin = pieces(xs, cols[c], span)
            shift = xs[0]
            for i, x in enumerate(xs):
                want = admissible(x - shift, got[i], [(a - shift, p, b - shift, q) for a, p, b, q in lin])
                if want is not None:
                    res.fail("value", f"log {k} timespan {span}: {c}[{i}] is {got[i]!r}, expected {want}; times {xs}, "
                                      f"values {cols[c]}")
                    break
            if got != cols[c]:
                res.nontrivial = True
                res.count("smoothed series")
            runs = [x for i, x in enumerate(xs) if i and cols[c][i] != cols[c][i - 1]]
            res.state([span, len(xs), [x - xs[0] for x in runs]])
        for e, (o, was) in enumerate(earlier):
            if picture(o) != was:
                res.fail("earlier", f"log {k}: the result of log {e} changed")
        earlier.append((out, picture(out)))
        res.log(k, h(picture(out)))


def shrink(scn):
    for k, log in enumerate(scn["logs"]):
        for j in range(len(log["cols"])):
            if len(log["cols"]) > 1:
                c = json.loads(json.dumps(scn))
                c["logs"][k]["cols"].pop(j)
                for r in c["logs"][k]["rows"]:
                    r.pop(j + 1)
                c["logs"][k]["at"] = 0
                yield c
