"""C16: data tables keep every value in its row and column through any history."""
import datetime as dt
import decimal
import json

from sim.core import h

RUNS = {"quick": 2500, "thorough": 400000}
LEVEL = "exploration"
RULE = ("A run applies a seeded history of operations, valid and rejected, to several tables that are "
        "made from each other; after every operation all tables are compared with their reference "
        "models. Non-trivial: at least three operations succeeded. Distinct by digest.")
STATE_MEASURE = "distinct (operation, contents of the table it was applied to)"
REAL = "Data"
STUB = "nothing; rejected calls are the faults"
ASSUMPTIONS = ["tables with columns of different length are only extended, appended to, updated or filled",
               "columns hold one type (documented)"]
SHRINK_LISTS = [("ops",)]

KEYS = ["TWS", "BSP", "a", "b", "tag", "note", "when", "motor"]
KINDS = {"TWS": "float", "BSP": "float", "a": "int", "b": "str", "tag": "int", "note": "str", "when": "time",
         "motor": "bool"}
# names of other programs and the name they have in the standard format
FOREIGN = {"wind_speed": "TWS", "true wind speed": "TWS", "tws": "TWS", "wind speed": "TWS", "Wind Speeds": "TWS", "boat-speed": "BSP", "Latitude": "lat", "longitude": "lon",
           "SOG": "SOG", "Speed Over Ground": "SOG", "TWA": "TWA", "Temperature": "temp", "crew": "crew",
           "Angle": "TWA", "": "", "Datestamp": "date", "Timestamp": "time", "x(Control value 1)": "x(Control value 1)"}
FKIND = {"wind_speed": "float", "true wind speed": "float", "tws": "int", "wind speed": "float", "Wind Speeds": "str", "boat-speed": "decimal", "Latitude": "float", "longitude": "str",
         "SOG": "float", "Speed Over Ground": "int", "TWA": "float", "Temperature": "float", "crew": "str", "": "int",
         "Datestamp": "date", "Timestamp": "clock", "Angle": "str", "x(Control value 1)": "str"}


def gen_value(rng, kind, none=0.15):
    if rng.random() < none:
        return None
    n = rng.randrange(1000)
    if rng.random() < 0.1:  # values that are false, but not missing
        return {"float": 0.0, "int": 0, "str": "0", "decimal": "D0", "bool": False}.get(kind, gen_value(rng, kind, 0))
    if rng.random() < 0.06:  # all digits count
        return {"float": rng.choice([1, -1, 1e-7, 1e9]) * rng.random(), "int": rng.randrange(-10**14, 10**14),
                "str": repr(rng.choice([1, -1e-9]) * rng.random()), "decimal": f"D-{n}.{rng.randrange(10**16):016d}",
                "time": f"T2020-01-01T00:{n % 60:02d}:00.{rng.randrange(10**6):06d}+02:00",
                }.get(kind, gen_value(rng, kind, 0))
    return {"float": n + 0.5, "int": n, "str": str(n) if rng.random() < 0.8 else f"v{n}",
            "bool": n % 2 == 0, "time": f"T2020-01-01T00:{n % 60:02d}:00", "decimal": f"D{n}.25", "date": f"d2021-0{n % 9 + 1}-11",
            "clock": f"c0{n % 10}:30:00"}[kind]


def gen_list(rng, kind, n):
    none = rng.choice([0, 0.15, 0.15, 1])
    if kind in ("float", "int") and rng.random() < 0.1:  # calm or not moving
        zero = 0 if kind == "int" else 0.0
        return [rng.choice([zero, None]) if none else zero for _ in range(n)]
    return [gen_value(rng, kind, none) for _ in range(n)]


def gen_op(rng, foreign):
    t = rng.randrange(3)
    kinds = dict(KINDS, **(FKIND if foreign else {}))
    keys = KEYS + (sorted(FKIND) if foreign else [])

    def cols(k=None, scalar=None):
        out = {}
        n = rng.randint(1, 4) if rng.random() < 0.98 else rng.randint(100, 130)
        for key in rng.sample(keys, k or rng.randint(1, 4)):
            one = rng.random() < 0.5 if scalar is None else scalar
            kind = kinds[key]
            if rng.random() < 0.04:
                kind = rng.choice(["float", "int", "str"])
            out[key] = gen_value(rng, kind) if one else gen_list(rng, kind, n if rng.random() < 0.85 else rng.randint(0, 4))
        return out

    op = rng.choice(["update"] * 5 + ["compress"] * 3 + ["merge"] * 2 + ["extend", "append", "fill", "types", "rename",
                    "rename", "delcol", "delrow", "delrow", "delcols", "strip", "strip", "slice", "mask", "mask",
                    "concat", "fromdict", "standard", "rows", "weighted", "weighted"])
    out = {"op": op, "t": t, "u": rng.randrange(3)}
    if op in ("slice", "mask", "concat", "fromdict"):  # the table it is made from often stays in use
        out["to"] = rng.choice([t, rng.randrange(3)])
    if op in ("update", "compress", "fromdict"):
        out["cols"] = cols(scalar={"compress": True, "fromdict": False}.get(op))
    elif op in ("extend", "append"):
        key = rng.choice(keys)
        kind = kinds[key] if rng.random() < 0.93 else "str"
        out["key"] = key
        out["val"] = gen_list(rng, kind, rng.randint(0, 3)) if op == "extend" else gen_value(rng, kind)
        out["fill"] = rng.random() < 0.8
    elif op == "types":
        out["types"] = rng.sample(["float", "int", "str", "time", "bool"], rng.randint(0, 5))
    elif op == "rename":
        out["old"], out["new"] = rng.choice(keys), rng.choice(keys + ["new", "newer"])
    elif op == "delcol":
        out["key"] = rng.choice(keys)
    elif op == "delcols":
        out["keys"] = rng.sample(keys, rng.randint(0, 3))
    elif op == "delrow":
        out["rows"] = rng.choice([rng.randrange(8), [rng.randrange(8) for _ in range(rng.randint(0, 4))]])
    elif op == "strip":
        out["mode"] = rng.choice(["cols", "rows", "all", None])
    elif op == "slice":
        out["keys"] = rng.sample(keys, rng.randint(1, 5))
        out["how"] = rng.choice(["item", "get", "get", "item", "iter", "set", "dict"])
    elif op == "mask":
        out["bits"] = [rng.random() < 0.6 for _ in range(40)]
        out["np"] = rng.choice([True, False, True, False, "iter"])
    elif op == "weighted":
        out["as"] = rng.choice(["data", "dict", "array"])
        out["weights"] = rng.choice(["one", "list", "array", "list"])
        out["acts"] = [rng.choice([["mask", rng.choice(["list", "array"]), [rng.random() < 0.6 for _ in range(20)]],
                                   ["extend", rng.choice(["other", "self"])]]) for _ in range(rng.randint(0, 3))]
    elif op == "fill":
        out["len"] = rng.choice([None, None, rng.randint(0, 9)])
    return out


def generate(rng, tier):
    foreign = rng.random() < 0.4
    n = rng.randint(3, 14 if tier == "quick" else 30)
    out = [gen_op(rng, foreign) for _ in range(n)]
    if rng.random() < 0.06:  # several instruments for the same quantity
        i, t, m = rng.randrange(n), rng.randrange(3), rng.randint(1, 4)
        names = rng.sample([k for k in dict(KINDS, **FKIND) if FOREIGN.get(k, k) == "TWS"], rng.randint(2, 6))
        kinds = dict(KINDS, **FKIND)
        out[i:i] = [{"op": "fromdict", "t": t, "u": t, "to": t, "cols": {k: gen_list(rng, kinds[k], m) for k in names}},
                    {"op": "standard", "t": t, "u": t}]
    return {"ops": out}


def value(x):
    if isinstance(x, str):
        if x[:1] == "T":
            return dt.datetime.fromisoformat(x[1:])
        if x[:1] == "D":
            return decimal.Decimal(x[1:])
        if x[:1] == "d":
            return dt.date.fromisoformat(x[1:])
        if x[:1] == "c":
            return dt.time.fromisoformat(x[1:])
    return x


def values(x):
    return [value(v) for v in x] if isinstance(x, list) else value(x)


def col_type(vals):
    """Type of a column; False if it is inconsistent"""
    types = {type(v) for v in vals if v is not None}
    return None if not types else (types.pop() if len(types) == 1 else False)


class Rejected(Exception):
    pass


class Model:
    """Reference: columns of records"""

    def __init__(self, cols=None, n=0):
        self.cols = cols or {}
        self.n = n

    def copy(self):
        return Model({k: list(v) for k, v in self.cols.items()}, self.n)

    def ragged(self):
        return any(len(v) != self.n for v in self.cols.values())

    def check(self, key, new):
        t, old = col_type(new), col_type(self.cols.get(key, []))
        if t is False or (t is not None and old is not None and t != old):
            raise Rejected("types")

    def extend(self, key, vals):
        self.check(key, vals)
        self.cols.setdefault(key, []).extend(vals)
        self.n = max(self.n, len(self.cols[key]))

    def fill(self, n=None):
        n = self.n if n is None else n
        for v in self.cols.values():
            v.extend([None] * (n - len(v)))

    def update(self, cols, compress=False):
        for k, v in cols.items():
            self.check(k, v if isinstance(v, list) else [v])
        for k in cols:
            self.cols.setdefault(k, [])
        self.fill()
        if compress and self.n and all(self.cols[k][-1] is None for k in cols):
            for k in cols:
                self.cols[k].pop()
        for k, v in cols.items():
            self.extend(k, v if isinstance(v, list) else [v])
        self.fill()

    def delete_rows(self, rows):
        rows = {r for r in (rows if isinstance(rows, list) else [rows]) if r < self.n}
        self.cols = {k: [x for i, x in enumerate(v) if i not in rows] for k, v in self.cols.items()}
        self.n -= len(rows)

    def strip(self, mode):
        if mode in ("cols", "all"):
            self.cols = {k: v for k, v in self.cols.items() if any(x is not None for x in v)}
        if mode in ("rows", "all"):
            kept = [i for i in range(self.n) if any(v[i] is not None for v in self.cols.values())]
            a, b = (kept[0], kept[-1] + 1) if kept else (0, 0)
            self.cols = {k: v[a:b] for k, v in self.cols.items()}
            self.n = b - a

    def standard(self):
        out = {}
        names = list(self.cols)
        for k in list(self.cols):
            std = FOREIGN.get(k, k)
            new = std
            if std != k:
                i = 0
                while new in names:
                    i += 1
                    new = f"{std}(Control value {i})"
                names[names.index(k)] = new
            out[k] = new
        cols = {}
        for k, v in self.cols.items():
            cols[out[k]] = v
        if "time" in cols and "date" in cols and "datetime" not in cols:
            d, t = cols.pop("date"), cols.pop("time")
            cols["datetime"] = [None if a is None or b is None else dt.datetime.combine(a, b) for a, b in zip(d, t)]
        for k, v in cols.items():
            if col_type(v) in (int, str, decimal.Decimal):
                try:
                    cols[k] = [None if x is None else float(x) for x in v]
                except ValueError:
                    pass
        self.cols = cols


def compare(res, data, model, label):
    """True if the table is what the model says"""
    got = {k: list(data[k]) for k in data.keys()}
    if set(got) != set(model.cols) or len(data.keys()) != len(set(data.keys())):
        res.fail("columns", f"{label}: {sorted(got)} instead of {sorted(model.cols)}")
        return False
    for k, v in model.cols.items():
        if got[k] != v or [type(x) for x in got[k]] != [type(x) for x in v]:
            res.fail("values", f"{label}: {k} is {got[k]}, should be {v}")
            return False
        t = col_type(v)
        if t is not None and data.type(k) != t:
            res.fail("types", f"{label}: {k} has type {data.type(k)}, values {v}")
            return False
    if data.n_rows != model.n or data.n_cols != len(model.cols):
        res.fail("number-of-rows", f"{label}: {data.n_rows} x {data.n_cols}, should be {model.n} x {len(model.cols)}")
        return False
    return True


def views(res, data, model, label):
    """The ways to look at a filled table agree with the columns"""
    import numpy as np

    keys = list(data.keys())
    want = [{k: model.cols[k][i] for k in keys} for i in range(model.n)]
    if list(data.rows()) != want or list(data) != want:
        res.fail("rows", f"{label}: {list(data.rows())} should be {want}")
    some = keys[::-1][: 2]
    got = [list(r) for r in data.rows(iter(some), return_type=tuple)]
    if got != [[model.cols[k][i] for k in some] for i in range(model.n)] or \
            [list(r) for r in data.rows(some, return_type=list)] != got:
        res.fail("rows", f"{label}: {got} of {some}")
    for i in range(model.n):
        if data[i] != want[i]:
            res.fail("row", f"{label}: row {i} is {data[i]}, should be {want[i]}")
            break
    fkeys, fvals = data.get_by_type(float)
    floats = [k for k in keys if col_type(model.cols[k]) is float]
    if not set(floats) <= set(fkeys) or any(list(c) != model.cols[k] for k, c in zip(fkeys, fvals)) or \
            any(col_type(model.cols[k]) not in (float, None) for k in fkeys):
        res.fail("columns-of-type", f"{label}: {fkeys} {fvals}, float columns are {floats}")
    if floats and model.n and set(fkeys) == set(floats) and all(None not in model.cols[k] for k in floats):
        nk, arr = data.numerical
        if [list(map(float, c)) for c in np.asarray(arr).T] != [model.cols[k] for k in nk]:
            res.fail("numerical", f"{label}: {nk} {arr}")
    if any((k in data) != True for k in keys) or "missing" in data:  # pylint: disable=singleton-comparison
        res.fail("contains", label)


def weighted(res, op, tables, models, label):
    """Weighted points made of tables keep every weight with its record"""
    import numpy as np
    from hrosailing.core.data import WeightedPoints

    def make(i, start):
        """(weighted points, model: [record, weight])"""
        m = models[i]
        cols = {k: list(v) for k, v in m.cols.items()}
        if op["as"] == "array":
            rows = [[float(start + r), float(r), 0.5 * r] for r in range(m.n)]
            points = np.array(rows).reshape(-1, 3)
        else:
            rows = [{k: v[r] for k, v in cols.items()} for r in range(m.n)]
            points = tables[i] if op["as"] == "data" else cols
        w = [1.5] * m.n if op["weights"] == "one" else [start + 0.25 * r for r in range(m.n)]
        given = 1.5 if op["weights"] == "one" else np.array(w) if op["weights"] == "array" else list(w)
        return WeightedPoints(points, given), [[r, x] for r, x in zip(rows, w)]

    points, model = make(op["t"], 1)
    for act in op["acts"]:
        if act[0] == "mask":
            bits = [act[2][r % len(act[2])] for r in range(len(model))]
            points = points[np.array(bits, dtype=bool) if act[1] == "array" or not bits else bits]
            model = [x for x, b in zip(model, bits) if b]
            continue
        more, rows = (points, model) if act[1] == "self" else make(op["u"], 1000)
        if op["as"] != "array" and model and rows:
            a, b = set(model[0][0]), set(rows[0][0])
            if op["as"] == "dict":  # keys of both only
                model = [[{k: r[k] for k in a & b}, w] for r, w in model]
                rows = [[{k: r[k] for k in a & b}, w] for r, w in rows]
            elif any(col_type([r[k] for r, _ in model + rows if k in r]) is False for k in a | b):
                return  # columns of two types
            else:
                model = [[{k: r.get(k) for k in a | b}, w] for r, w in model]
                rows = [[{k: r.get(k) for k in a | b}, w] for r, w in rows]
        elif op["as"] != "array":
            return  # nothing known about the columns
        points.extend(more)
        model = model + rows
    weights = np.asarray(points.weights)
    if weights.shape != (len(model),) or [float(w) for w in weights] != [float(w) for _, w in model]:
        res.fail("weights", f"{label}: weights {weights} instead of {[w for _, w in model]}")
        return
    if op["as"] == "array":
        got = np.asarray(points.data).tolist()
    elif op["as"] == "data":
        got = list(points.data.rows())
    else:
        keys = list(points.data)
        lengths = {len(points.data[k]) for k in keys}
        if lengths - {len(model)}:
            res.fail("weighted-points", f"{label}: columns of length {lengths} for {len(model)} weights")
            return
        got = [{k: points.data[k][r] for k in keys} for r in range(len(model))]
    if got != [r for r, _ in model] and not (op["as"] != "array" and model and not model[0][0]):
        res.fail("weighted-points", f"{label}: records {got} instead of {[r for r, _ in model]}")


TYPES = {"float": float, "int": int, "str": str, "time": dt.datetime, "bool": bool}


def apply(op, data, other, model, omodel):
    """(new data or None, new model or None); raises Rejected if the model rejects"""
    from hrosailing.core.data import Data

    k = op["op"]

    def both(on_model, on_data):
        """Run on the model first: what is rejected there has to be rejected"""
        m = model.copy()
        try:
            on_model(m)
        except Rejected:
            try:
                on_data()
            except Exception as exc:  # pylint: disable=broad-except
                raise Rejected(type(exc).__name__) from exc
            raise AssertionError("accepted") from None
        on_data()
        model.cols, model.n = m.cols, m.n
        return None

    if k in ("update", "compress"):
        cols = {c: values(v) for c, v in op["cols"].items()}
        given = {c: values(v) for c, v in op["cols"].items()}
        return both(lambda m: m.update(cols, k == "compress"), lambda: data.update(given, compress=k == "compress"))
    if k == "merge":
        return both(lambda m: m.update({c: list(v) for c, v in omodel.cols.items()}), lambda: data.update(other))
    if k in ("extend", "append"):
        v = values(op["val"])

        def on_model(m):
            m.extend(op["key"], v if k == "extend" else [v])
            if op["fill"]:
                m.fill()

        def on_data():
            if k == "extend":
                data.extend(op["key"], list(v))
            else:
                data.append(op["key"], v)
            if op["fill"]:
                data.fill()

        return both(on_model, on_data)
    if k == "fill":
        if op["len"] is not None and op["len"] > model.n:
            return None  # would lengthen the columns only
        return both(lambda m: m.fill(op["len"]), lambda: data.fill(op["len"]))
    if k == "types":
        want = [TYPES[t] for t in op["types"]]
        # columns without values are of none of the types

        def keep(m):
            m.cols = {c: v for c, v in m.cols.items() if col_type(v) in want}

        return both(keep, lambda: data.filter_types(want))
    if k == "rename":
        def ren(m):
            if op["old"] == op["new"]:
                return
            if op["old"] not in m.cols or op["new"] in m.cols:
                raise Rejected()
            m.cols[op["new"]] = m.cols.pop(op["old"])

        return both(ren, lambda: data.rename(op["old"], op["new"]))
    if k in ("delcol", "delcols"):
        names = [op["key"]] if k == "delcol" else op["keys"]

        def dele(m):
            for n in names:
                if n not in m.cols:
                    raise Rejected()
            for n in names:
                del m.cols[n]

        return both(dele, lambda: data.delete(op["key"] if k == "delcol" else list(names)))
    if k == "delrow":
        return both(lambda m: m.delete_rows(op["rows"]), lambda: data.delete(op["rows"]))
    if k == "strip":
        return both(lambda m: m.strip(op["mode"] or "all"),
                    lambda: data.strip(op["mode"]) if op["mode"] else data.strip())
    if k == "standard":
        return both(lambda m: m.standard(), data.hrosailing_standard_format)
    if k == "slice":
        form = {"iter": iter, "set": set, "dict": dict.fromkeys}.get(op["how"], list)
        new = data.get_slice(op["keys"]) if op["how"] == "get" else data[form(op["keys"])]
        cols = {c: list(v) for c, v in model.cols.items() if c in op["keys"]}
        return new, Model(cols, model.n if cols else 0)
    if k == "mask":
        import numpy as np

        bits = (op["bits"] * (1 + model.n // len(op["bits"])))[: model.n]
        new = data[iter(bits) if op["np"] == "iter" else np.array(bits, dtype=bool) if op["np"] else bits]
        cols = {c: [x for x, b in zip(v, bits) if b] for c, v in model.cols.items()}
        return new, Model(cols, sum(bits) if cols else 0)
    if k == "concat":
        m = Model()
        try:
            m.update({c: list(v) for c, v in model.cols.items()})
            m.update({c: list(v) for c, v in omodel.cols.items()})
        except Rejected:
            try:
                Data.concatenate([data, other])
            except ValueError as exc:
                raise Rejected() from exc
            raise AssertionError("accepted") from None
        return Data.concatenate([data, other]), m
    if k == "fromdict":
        cols = {c: values(v) for c, v in op["cols"].items()}
        m = Model()
        try:
            m.update(cols)
        except Rejected:
            try:
                Data.from_dict(cols)
            except ValueError as exc:
                raise Rejected() from exc
            raise AssertionError("accepted") from None
        given = {c: list(v) for c, v in cols.items()}
        return Data.from_dict(given), m
    return None


def execute(scn, ctx):
    from hrosailing.core.data import Data

    res = ctx.res
    tables = [Data() for _ in range(3)]
    models = [Model() for _ in range(3)]
    done = 0
    for k, op in enumerate(scn["ops"]):
        t, u = op["t"], op["u"]
        if models[t].ragged() and op["op"] not in ("update", "extend", "append", "fill"):
            tables[t].fill()
            models[t].fill()
        if op["op"] in ("merge", "concat") and models[u].ragged():
            tables[u].fill()
            models[u].fill()
        if op["op"] == "merge" and t == u:
            continue
        # a column whose values are all gone may keep its type until the types are determined again
        for i in {t, u}:
            tables[i].fill(0)
        label = f"step {k} {json.dumps(op)[:300]}"
        if op["op"] == "standard":
            kinds = {c: col_type(v) for c, v in models[t].cols.items()}
            if kinds.get("Datestamp") not in (None, dt.date) or kinds.get("Timestamp") not in (None, dt.time):
                continue
            if kinds.get("date") not in (None, dt.date) or kinds.get("time") not in (None, dt.time):
                continue
        if op["op"] == "weighted":
            if op["as"] == "data" and op["u"] == t or models[u].ragged() or not models[t].cols or not models[u].cols:
                continue
            try:
                weighted(res, op, tables, models, label)
            except Exception as exc:  # pylint: disable=broad-except
                res.fail(f"raised-{type(exc).__name__}", f"{label}: {exc!r}")
            if res.violations:
                return
            res.count("weighted")
        try:
            out = apply(op, tables[t], tables[u], models[t], models[u])
        except Rejected:
            res.fault("rejected-" + op["op"])
            res.log(label, "rejected")
            out = None
        except AssertionError:
            res.fail("not-rejected", label)
            return
        except Exception as exc:  # pylint: disable=broad-except
            res.fail(f"raised-{type(exc).__name__}", f"{label}: {exc!r}")
            return
        else:
            done += 1
            res.count(op["op"])
        if out is not None:
            t = op.get("to", t)
            tables[t], models[t] = out
        for i in range(3):
            if not compare(res, tables[i], models[i], f"{label}, table {i}"):
                return
            if i == t and not models[i].ragged():
                views(res, tables[i], models[i], label)
        res.log(label, h(repr(models[t].cols)))
        res.state([op["op"], repr(models[t].cols)])
    res.nontrivial = done >= 3
