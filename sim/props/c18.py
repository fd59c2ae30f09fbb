"""C18: completing records keeps every measured value, whatever was lost on the way."""
import datetime as dt

from sim.core import h

RUNS = {"quick": 2500, "thorough": 400000}
LEVEL = "exploration"
RULE = ("A run sends seeded logs through a lossy instrument link (single losses, bursts, lost first and last records, "
        "dead instruments, stopped clocks) and completes what arrived with one imputator that is used again and again, "
        "also after fill functions failed; result, calls of the fill functions and statistics are compared with a "
        "reference model. Non-trivial: something was lost and something was completed or dropped. Distinct by digest.")
STATE_MEASURE = "distinct (pattern of lost values of a column, neighbours in time that remained)"
REAL = "FillLocalImputator, RemoveOnlyImputator, Data"
STUB = "the instrument link (seeded losses); fill functions (configured by the run, sometimes failing)"
ASSUMPTIONS = ["records that lost other values than their time stamp are in order of time (documented) and the log keeps at least one time stamp",
               "no interpolated time stamp is exactly max_time_diff away from another one (rounding would decide)",
               "interpolated time stamps may differ by rounding (5 microseconds)"]
SHRINK_LISTS = [("logs",), ("logs", 0, "times"), ("logs", 1, "times"), ("logs", 2, "times")]

COLS = {"TWS": float, "TWA": float, "BSP": float, "lat": float, "crew": str, "count": int}
LOSS = ["none", "random", "random", "burst", "first", "last", "all", "ends", "alternate", "few"]
START = dt.datetime(2023, 3, 25, 23, 58, 0)


def lose(rng, n, kind):
    """Indices lost by one instrument"""
    if kind == "none":
        return []
    if kind == "all":
        return list(range(n))
    if kind == "random":
        p = rng.choice([0.1, 0.4, 0.7])
        return [i for i in range(n) if rng.random() < p]
    if kind == "burst":
        a = rng.randrange(n)
        return list(range(a, min(n, a + rng.randint(1, max(1, n // 2)))))
    if kind == "first":
        return list(range(rng.randint(1, max(1, n - 1))))
    if kind == "last":
        return list(range(rng.randint(0, n - 1), n))
    if kind == "ends":
        return sorted({0, n - 1})
    if kind == "alternate":
        return list(range(rng.randrange(2), n, 2))
    return sorted(rng.sample(range(n), rng.randint(0, min(2, n))))


def gen_log(rng, tier):
    n = rng.choice([1, 2, 3, rng.randint(4, 10), rng.randint(5, 14 if tier == "quick" else 40)])
    if rng.random() < 0.03:
        n = rng.choice([60, 150, 300])
    calm = n >= 60 and rng.random() < 0.7
    t, times = 0, []
    for _ in range(n):
        t += rng.choice([0, 0.25, 0.5]) if calm else rng.choice([0, 1, 1, 10, 10, 30, 60, 61, 119, 120, 121, 300, 100000, 86400, 86401, 3 * 86400 + 20])
        times.append(t)
    cols = rng.sample(sorted(COLS), rng.randint(1, len(COLS)))
    lost = {c: lose(rng, n, rng.choice(LOSS)) for c in cols}
    stamps = lose(rng, n, rng.choice(["none", "none", "random", "burst", "first", "last", "ends", "alternate"]))
    if calm and rng.random() < 0.6:  # a clock that stopped for a long time
        stamps = list(range(rng.randint(0, 20), n - rng.randint(0, 20)))
    if len(stamps) == n:
        stamps = stamps[1:]
    whole = rng.sample(range(n), rng.randint(0, min(2, n))) if rng.random() < 0.3 else []
    if rng.random() < 0.1:  # the clock is set back on the way; no other values are lost then
        lost, whole, at, back = {c: [] for c in cols}, [], rng.randrange(n), rng.choice([1, 30, 119, 3600, 90000])
        times = [t if i < at else t - back for i, t in enumerate(times)]
    return {"times": times, "cols": cols, "lost": lost, "stamps": stamps, "whole": whole, "tag": rng.random() < 0.9,
            "dtfirst": rng.random() < 0.5, "fail": rng.randint(1, 6) if rng.random() < 0.12 else None}


def generate(rng, tier):
    return {"kind": rng.choice(["local", "local", "local", "local", "remove"]),
            "max": rng.choice([None, None, 0.37, 1.37, 20.37, 60.37, 120.37, 3600.37]),
            "fill": {k: rng.choice(["default", "affine", "keep", "const"]) for k in ("before", "between", "after")},
            "none": rng.choice([None] * 9 + ["TWS", "crew"]),
            "logs": [gen_log(rng, tier) for _ in range(rng.randint(1, 3))]}


def value(col, i, k):
    if i % 9 == 4:  # values that are false, but measured
        return {float: 0.0, str: "", int: 0}[COLS[col]]
    return {float: i + 0.25 + 1000 * k, str: f"{col}{i}/{k}", int: i + 1000 * k}[COLS[col]]


def make_columns(log, k):
    """What arrived of the log: column -> list"""
    n = len(log["times"])
    gone = set(log["whole"])
    keep = [t for t in range(n) if t not in log["stamps"]]
    cols = {}
    if log["tag"]:
        cols["tag"] = list(range(n))
    for c in log["cols"]:
        cols[c] = [None if i in gone or i in log["lost"][c] else value(c, i, k) for i in range(n)]
    stamps = [START + dt.timedelta(seconds=t) for t in log["times"]]
    cols["datetime"] = [s if i in keep and (i not in gone or len(keep) == 1) else None for i, s in enumerate(stamps)]
    if all(s is None for s in cols["datetime"]):
        cols["datetime"][keep[0] if keep else 0] = stamps[keep[0] if keep else 0]
    if log["dtfirst"]:
        cols = {"datetime": cols.pop("datetime"), **cols}
    return cols


class FillFailed(Exception):
    pass


class Fills:
    """The configured fill functions; records every call"""

    def __init__(self, spec, none):
        self.spec, self.none = spec, none
        self.calls, self.fail_at, self.n = [], None, 0

    def _result(self, kind, name, left, right, mu):
        how = self.spec[kind]
        one = left if left is not None else right
        if name == self.none:
            return None
        if how == "affine" and isinstance(one, float):
            return (1 - mu) * left + mu * right if left is not None and right is not None else one + mu
        if how == "const":
            return {float: -1.5, str: "?", int: -7}[type(one)]
        return one

    def _called(self, kind, name, left, right, mu):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise FillFailed(f"fill function failed at call {self.n}")
        self.calls.append((kind, name, left, right, mu))
        return self._result(kind, name, left, right, mu)

    def kwargs(self):
        out = {}
        if self.spec["before"] != "default":
            out["fill_before"] = lambda name, right, mu: self._called("before", name, None, right, mu)
        if self.spec["between"] != "default":
            out["fill_between"] = lambda name, left, right, mu: self._called("between", name, left, right, mu)
        if self.spec["after"] != "default":
            out["fill_after"] = lambda name, left, mu: self._called("after", name, left, None, mu)
        return out


def reference(cols, limit, fills):
    """(records as list of dicts, statistics, calls) - the documented procedure, record by record"""
    names = [c for c in cols if any(v is not None for v in cols[c])]
    stats = {"n_removed_cols": len(cols) - len(names)}
    n = len(next(iter(cols.values())))
    stamps = list(cols["datetime"])
    known = [i for i in range(n) if stamps[i] is not None]
    for a, b in zip(known, known[1:]):
        if abs(stamps[b] - stamps[a]) <= limit:
            for j in range(a + 1, b):
                stamps[j] = stamps[a] + (stamps[b] - stamps[a]) * (j - a) / (b - a)
    made = [s for i, s in enumerate(stamps) if s is not None and cols["datetime"][i] is None]
    if any(abs(abs((s - q).total_seconds()) - limit.total_seconds()) < 1e-4 for s in made for q in stamps if q):
        return None  # rounding of an interpolated stamp would decide
    rows = [{"datetime": stamps[i], **{c: cols[c][i] for c in names if c != "datetime"}} for i in range(n) if stamps[i] is not None]
    calls, out = [], [dict(r) for r in rows]
    for c in names:
        if c == "datetime":
            continue
        for i, r in enumerate(rows):
            if r[c] is not None:
                continue
            left = [q for q in rows[:i] if q[c] is not None and r["datetime"] - q["datetime"] < limit][-1:]
            right = [q for q in rows[i + 1:] if q[c] is not None and q["datetime"] - r["datetime"] < limit][:1]
            if not left and not right:
                continue
            if not left:
                call = ("before", c, None, right[0][c], (right[0]["datetime"] - r["datetime"]) / limit)
            elif not right or right[0]["datetime"] - left[0]["datetime"] > limit:
                call = ("after", c, left[0][c], None, (r["datetime"] - left[0]["datetime"]) / limit)
            else:
                span = right[0]["datetime"] - left[0]["datetime"]
                call = ("between", c, left[0][c], right[0][c], (r["datetime"] - left[0]["datetime"]) / span if span else 1)
            calls.append(call)
            if fills.spec[call[0]] == "default":
                out[i][c] = call[2] if call[2] is not None else call[3]
            else:
                out[i][c] = fills._result(*call)
    done = [r for r in out if all(v is not None for v in r.values())]
    stats.update(n_removed_rows=n - len(done), n_filled_fields=len(calls), n_rows=len(done), n_cols=len(names))
    return done, names, stats, calls


def same(a, b):
    if isinstance(a, dt.datetime) and isinstance(b, dt.datetime):
        return abs((a - b).total_seconds()) <= 5e-6
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-3 * (1 + abs(b))
    return type(a) is type(b) and a == b


def same_call(a, b):
    return a[:2] == b[:2] and a[2] == b[2] and a[3] == b[3] and abs(a[4] - b[4]) <= 1e-4


def execute(scn, ctx):
    from hrosailing.core.data import Data
    from hrosailing.processing.imputator import FillLocalImputator, RemoveOnlyImputator

    res = ctx.res
    fills = Fills(scn["fill"], scn["none"])
    limit = dt.timedelta(minutes=2) if scn["max"] is None else dt.timedelta(seconds=scn["max"])
    if scn["kind"] == "local":
        kwargs = fills.kwargs()
        if scn["max"] is not None:
            kwargs["max_time_diff"] = limit
        imp = FillLocalImputator(**kwargs)
    else:
        imp = RemoveOnlyImputator()
    earlier = []  # results of earlier uses must stay as they are
    for k, log in enumerate(scn["logs"]):
        if not log["times"]:
            continue
        for key in ("lost",):
            log[key] = {c: [i for i in v if i < len(log["times"])] for c, v in log[key].items()}
        log["stamps"] = [i for i in log["stamps"] if i < len(log["times"])]
        cols = make_columns(log, k)
        n = len(log["times"])
        data = Data().from_dict({c: list(v) for c, v in cols.items()})
        lost = sum(v is None for c in cols for v in cols[c])
        res.fault("lost value", lost)
        res.fault("lost time stamp", sum(v is None for v in cols["datetime"]))
        res.fault("dead instrument", sum(all(v is None for v in cols[c]) for c in cols))
        res.sim_time += log["times"][-1]
        fills.calls, fills.n, fills.fail_at = [], 0, log["fail"]
        if scn["kind"] == "local":
            model = reference(cols, limit, fills)
            if model is None:
                continue
            want, names, stats, calls = model
            if lost and (calls or len(want) < n):
                res.nontrivial = True
            own = [c for c in calls if fills.spec[c[0]] != "default"]
            fails = log["fail"] is not None and len(own) >= log["fail"]
        else:
            want = [r for r in ({c: cols[c][i] for c in cols} for i in range(n)) if all(v is not None for v in r.values())]
            names, stats, fails = list(cols), {"n_removed_cols": 0, "n_removed_rows": n - len(want), "n_filled_fields": 0,
                                               "n_rows": len(want), "n_cols": len(cols)}, False
            if lost:
                res.nontrivial = True
        try:
            out = imp.impute(data)
        except FillFailed:
            res.fault("fill function failed")
            if not fails:
                res.fail("fill:unneeded", f"log {k}: fill function called more often ({fills.n}) than there are gaps to fill")
            continue
        if fails:
            res.fail("error:lost", f"log {k}: the error of a fill function got lost")
            continue
        got_names = list(out.keys())
        if sorted(got_names) != sorted(names):
            res.fail("columns", f"log {k}: columns {got_names}, expected {names}")
            continue
        for c in names:
            if len(out[c]) != len(want):
                res.fail("records", f"log {k}: {len(out[c])} records in column {c}, expected {len(want)}: "
                                    f"{list(out[c])} / {[r[c] for r in want]}")
                break
            for i, r in enumerate(want):
                if not same(out[c][i], r[c]):
                    res.fail("value", f"log {k}: record {i} column {c} is {out[c][i]!r}, expected {r[c]!r}")
                    break
        if out.n_rows != len(want):
            res.fail("n_rows", f"log {k}: n_rows {out.n_rows}, expected {len(want)}")
        got = {key: imp.get_latest_statistics().get(key, "missing") for key in stats}
        if scn["none"] is None and got != stats or scn["none"] is not None and any(
                got[key] != stats[key] for key in stats if key != "n_filled_fields"):
            res.fail("statistics", f"log {k}: statistics {got}, expected {stats}")
        if scn["kind"] == "local":
            left = list(fills.calls)
            for c in own:
                hit = next((j for j, d in enumerate(left) if same_call(d, c)), None)
                if hit is None:
                    res.fail("fill:missing", f"log {k}: expected fill {c} among {left}")
                    break
                left.pop(hit)
            else:
                if left:
                    res.fail("fill:extra", f"log {k}: unexpected fills {left}")
        for kind, c, *_ in (calls if scn["kind"] == "local" else []):
            res.count("fill " + kind)
        for c in names:
            res.state([c, [v is None for v in cols[c]], [v is None for v in cols["datetime"]], log["times"][:3]])
        for e, (o, was) in enumerate(earlier):
            if {c: list(o[c]) for c in o.keys()} != was:
                res.fail("earlier", f"log {k}: the completed data of use {e} changed")
        earlier.append((out, {c: list(out[c]) for c in out.keys()}))
        res.log(k, len(want), h([[str(v) for v in r.values()] for r in want]))
