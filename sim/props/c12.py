"""C12: weather reaches exactly the records it belongs to, whatever the provider does."""
import datetime as dt
import math

from sim import weather as wx

RUNS = {"quick": 4000, "thorough": 300000}
LEVEL = "exploration"
RULE = ("A run expands one or more record tables, possibly repeatedly, with a weather provider that "
        "is out, answers partly or fails at seeded records and calls; each table is compared with an "
        "independent join of records and logged answers. Non-trivial: a record got weather. "
        "Distinct by digest.")
STATE_MEASURE = "distinct (mode, provider behaviour per record, outcome)"
REAL = "WeatherExpander, Data, GriddedWeatherModel, MultiWeatherModel"
STUB = "weather provider in between (outages, partial answers, failures), logging its answers"
ASSUMPTIONS = ["values of one weather attribute have one type"]
SHRINK_LISTS = [("steps",), lambda s: [("tables", i, "rows") for i in range(len(s["tables"]))]]

ATTRS = ["air pressure", "water temp", "TWS", "Wind speed", "TWD", "rain", "wave height"]
EXC = {"TypeError": TypeError, "KeyError": KeyError, "OSError": OSError, "RuntimeError": RuntimeError,
       "ConnectionError": ConnectionError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def generate(rng, tier):
    kind = rng.choice(["stub", "stub", "stub", "grid", "multi"])
    spec = wx.gen_spec(rng, big=True)
    spec["attrs"] = rng.sample(ATTRS, len(spec["attrs"]))
    tables = []
    tag = 0
    for _ in range(rng.randint(1, 2)):
        rows = []
        size = rng.choice([0, 1, 2, 5, rng.randint(3, 14)]) if rng.random() < 0.96 else rng.randint(30, 90)
        p_none = rng.choice([0, 0, 0.1, 0.4])
        for _ in range(size):
            t, lat, lon = wx.gen_point(rng, spec)
            for _ in range(2):
                if rng.random() < 0.7 and wx.lookup(spec, wx.point_of([t, lat, lon])) is None:
                    t, lat, lon = wx.gen_point(rng, spec)
            lost = rng.sample([0, 1, 2], rng.randint(1, 3)) if rng.random() < p_none else []
            rows.append([None if 0 in lost else t, None if 1 in lost else lat, None if 2 in lost else lon,
                         None if rng.random() < 0.1 else round(rng.uniform(0, 12), 3), tag])
            tag += 1
        if rows and rng.random() < 0.3:
            i = rng.randrange(len(rows))
            rows.append(rows[i][:4] + [tag])  # same place and time twice
            tag += 1
        if rng.random() < 0.3:
            rng.shuffle(rows)
        cols = ["datetime", "lat", "lon", "BSP", "tag"]
        extra = rng.sample(["TWS", "crew", "air pressure", "TWS(duplicate)"], rng.choice([0, 0, 1, 2]))
        order = rng.sample(range(5), 5)
        tables.append({"cols": cols, "rows": rows, "order": order, "extra": extra})
    steps = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        n = max(14, *(len(t["rows"]) for t in tables))
        late = rng.randrange(n) if n > 20 else 0
        out = {}
        if kind == "stub":
            for i in range(n + 2):
                r = rng.random()
                if i < late:
                    if r < 0.1:
                        out[str(i)] = "empty"
                elif r < 0.2:
                    out[str(i)] = "ValueError"
                elif r < 0.3:
                    out[str(i)] = "empty"
                elif r < 0.5:
                    out[str(i)] = "partial"
                elif r < 0.55:
                    out[str(i)] = "none"
                elif r < 0.58:
                    out[str(i)] = "extra"
            if rng.random() < 0.25:
                out[str(rng.randrange(max(1, n // 2)))] = rng.choice(sorted(EXC))
        steps.append({"table": rng.randrange(len(tables)), "outages": out})
    return {"kind": kind, "spec": spec, "mode": rng.choice(["delete", "ignore", None]),
            "tables": tables, "steps": steps, "none_position": rng.choice(["ValueError", "empty"])}


def standard(name):
    return {"Wind speed": "TWS"}.get(name, name)


class Provider:
    """Answers by the outage plan of the current step and logs every answer."""

    def __init__(self, scn, inner):
        self.scn, self.inner = scn, inner
        self.plan, self.calls, self.log, self.kinds = {}, 0, {}, []

    def begin(self, plan):
        self.plan, self.calls, self.log, self.kinds = plan, 0, {}, []

    def get_weather(self, point):
        key = repr(list(point))
        kind = self.plan.get(str(self.calls))
        self.calls += 1
        self.kinds.append(kind)
        try:
            out = self.answer(list(point), kind)
        except ValueError:
            self.log.setdefault(key, []).append(None)
            raise
        self.log.setdefault(key, []).append(dict(out))
        return out

    def answer(self, point, kind):
        if kind == "ValueError":
            raise ValueError("out of reach")
        if kind in EXC:
            raise EXC[kind]("simulated failure of the provider")
        if self.inner is not None:
            return self.inner.get_weather(point)
        if None in point:
            if self.scn["none_position"] == "empty":
                return {}
            raise ValueError("position unknown")
        if kind == "empty":
            return {}
        t, lat, lon = point
        code = math.fmod(lat * 1000 + lon * 7 + t.microsecond + t.minute * 11, 977)
        out = {a: code + i for i, a in enumerate(self.scn["spec"]["attrs"])}
        if kind == "partial":
            drop = self.scn["spec"]["attrs"][self.calls % len(out)]
            del out[drop]
        if kind == "none":
            out = {a: None for a in out}
        if kind == "extra":
            out["lightning"] = code - 1
        return out


def make(table):
    from hrosailing.core.data import Data

    cols = {}
    for j in table["order"]:
        name = table["cols"][j]
        vals = [r[j] for r in table["rows"]]
        if name == "datetime":
            vals = [None if v is None else dt.datetime.fromisoformat(v) for v in vals]
        if name == "tag":
            vals = [float(v) for v in vals]
        cols[name] = vals
    for i, name in enumerate(table["extra"]):
        cols[name] = [float(r[4]) * 10 + i for r in table["rows"]]
    return Data.from_dict(cols)


def snapshot(data):
    return {k: list(data[k]) for k in data.keys()}


def execute(scn, ctx):
    from hrosailing.models import MultiWeatherModel
    from hrosailing.pipeline import WeatherExpander

    res = ctx.res
    inner = None
    if scn["kind"] != "stub":
        inner = wx.build(scn["spec"])
        if scn["kind"] == "multi":
            inner = MultiWeatherModel(inner)
    provider = Provider(scn, inner)
    mode = scn["mode"]
    expander = WeatherExpander(provider) if mode is None else WeatherExpander(provider, mode)
    delete = mode != "ignore"
    tables = [make(t) for t in scn["tables"]]
    for k, step in enumerate(scn["steps"]):
        data = tables[step["table"]]
        if not all(c in data for c in ("datetime", "lat", "lon")):
            continue
        before = snapshot(data)
        n = len(before["tag"])
        provider.begin(step["outages"])
        try:
            out = expander.expand(data)
        except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
            failed = [x for x in provider.kinds if x in EXC]
            for x in failed:
                res.fault(f"provider-{x}")
            res.log(f"step {k}: {exc!r}")
            if failed and isinstance(exc, EXC[failed[-1]]):
                pass
            elif scn["kind"] == "grid" and isinstance(exc, TypeError) and any(
                    None in (before["datetime"][i], before["lat"][i], before["lon"][i]) for i in range(n)):
                res.count("unanswerable_position")
            else:
                res.fail("expansion-failed", f"step {k}: {exc!r}")
            if snapshot(data) != before:
                res.fail("failed-expansion-changed-records", f"step {k}: {exc!r}")
                return
            continue
        for x in provider.kinds:
            if x and x not in ("extra",):
                res.fault(f"provider-{x}")
            if x in EXC:
                res.fail("failure-hidden", f"step {k}: {x}")
                return
        after = snapshot(out)
        # the reference join
        keep, answers = [], []
        for i in range(n):
            key = repr([before["datetime"][i], before["lat"][i], before["lon"][i]])
            got = provider.log.get(key)
            if not got:
                res.fail("record-never-looked-up", f"step {k}: record {before['tag'][i]} ({key})")
                return
            a = got.pop(0) if len(got) > 1 else got[0]
            if a is None and delete:
                continue
            keep.append(i)
            answers.append(a or {})
        res.log(f"step {k}: {n} records, kept {len(keep)}")
        res.state([mode, provider.kinds, len(keep)])
        for name, vals in before.items():
            want = [vals[i] for i in keep]
            if after.get(name) != want:
                res.fail("measurement-changed", f"step {k}: {name} {want} became {after.get(name)}")
                return
        attrs = list(dict.fromkeys(a for w in answers for a in w))
        new = [c for c in after if c not in before]
        for a in attrs:
            want = [w.get(a) for w in answers]
            hits = [c for c in new if c.startswith(standard(a)) and same(after[c], want)]
            if not hits:
                res.fail("weather-of-other-record", f"step {k}: {a} should be {want}, columns "
                         f"{ {c: after[c] for c in new} }")
                return
            new.remove(hits[0])
            if standard(a) not in before and attrs.count(a) == 1 and hits[0] != standard(a) and \
                    not any(standard(b) == standard(a) for b in attrs if b != a):
                res.fail("weather-name", f"step {k}: {a} came as {hits[0]}")
        if new:
            res.fail("invented-weather", f"step {k}: columns {new}")
            return
        if any(len(v) != len(keep) for v in after.values()) or out.n_rows != len(keep):
            res.fail("ragged-table", f"step {k}: {({c: len(v) for c, v in after.items()}, out.n_rows, len(keep))}")
            return
        st = expander.get_latest_statistics()
        if st.get("n_rows") != len(keep) or st.get("n_cols") != len(after):
            res.fail("statistics", f"step {k}: {st}, should be {len(keep)} rows, {len(after)} columns")
        tables[step["table"]] = out
        if attrs and keep:
            res.nontrivial = True
        res.count("records_with_weather", sum(1 for w in answers if w))
        res.count("records_dropped", n - len(keep))


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if (g is None) != (w is None) or g is not None and g != w:
            return False
    return True
