"""Generated polar diagrams: JSON specs, construction, reference content.

The reference content of a diagram is computed from the spec alone (never from the
object under test): tables are sorted by wind angle modulo 360 and wind speed,
clouds keep their order and drop negative wind speeds.
"""
import json
import pathlib

from sim.core import other_digits

CURVES = {
    "ws_concave_dt_wa": 11, "ws_wa_s_dt": 14, "ws_s_dt_wa_gauss": 10,
    "ws_s_s_dt_wa_gauss_comb": 12, "ws_s_wa_gauss": 12,
    "ws_s_wa_gauss_and_square": 10, "ws_times_wa": 1,
}


# ------------------------------------------------------------- generation
def number(rng, lo, hi, nasty=True):
    r = rng.random()
    if r < 0.25:
        return float(rng.randint(int(lo), int(hi)))
    if r < 0.45:
        return round(rng.uniform(lo, hi), 2)
    if nasty and r < 0.52:
        v = rng.choice([1e-9, 1e-300, 0.1 + 0.2, 1 / 3, 5e-324, 1.1e-5, 0.0,
                        1.7976931348623157e308, 123456789.123456789, 1e16, 1e22])
        return v if lo <= v <= hi else rng.uniform(lo, hi)
    return rng.uniform(lo, hi)


def distinct(rng, n, lo, hi, key=lambda x: x, nasty=True):
    out, seen, guard = [], set(), 0
    while len(out) < n and guard < 1000:
        guard += 1
        v = number(rng, lo, hi, nasty)
        if key(v) not in seen:
            seen.add(key(v))
            out.append(v)
    return out


def gen_table(rng, max_ws=8, max_wa=10, sort=None, nasty=True):
    nw = rng.choice([1, 1, 2, 2, rng.randint(3, max_ws)])
    na = rng.choice([1, 2, rng.randint(3, max_wa), rng.randint(3, max_wa)])
    ints = rng.random() < 0.2
    ws = distinct(rng, nw, 0, 60, nasty=nasty)
    wa = distinct(rng, na, 0 if rng.random() < 0.7 else -180, 359.9, key=lambda a: a % 360, nasty=nasty)
    if ints:
        ws = distinct(rng, nw, 0, 60, nasty=False)
        ws = sorted({int(x) for x in ws})
        wa = sorted({int(x) % 360 for x in wa})
    if sort or (sort is None and rng.random() < 0.7):
        ws.sort()
        wa.sort(key=lambda a: a % 360)
    lo, hi = rng.choice([(0, 20), (0, 20), (-5, 5)])
    bsps = [[number(rng, lo, hi, nasty) for _ in ws] for _ in wa]
    if rng.random() < 0.1:
        bsps = [[0.0 for _ in ws] for _ in wa]
    elif rng.random() < 0.3:  # regular contents: zero rows or columns, equal rows, few values
        how = rng.choice(["row", "row", "col", "equal", "few"])
        i, j = rng.choice([0, -1, rng.randrange(len(wa))]), rng.choice([0, -1, rng.randrange(len(ws))])
        for y, row in enumerate(bsps):
            for x in range(len(row)):
                if how == "few":
                    row[x] = rng.choice([0.0, 1.0])
                elif how == "equal":
                    row[x] = bsps[0][x]
                elif (how == "row" and y == i % len(wa)) or (how == "col" and x == j % len(ws)):
                    row[x] = 0.0
    return {"kind": "table", "ws": ws, "wa": wa, "bsps": bsps}


def gen_cloud(rng, max_pts=25, min_pts=0, nasty=True):
    n = rng.choice([min_pts, max(1, min_pts), 2, rng.randint(3, max_pts), rng.randint(3, max_pts)])
    if rng.random() < 0.15:
        pts = [[rng.randint(1, 40), rng.randint(0, 359), rng.randint(0, 20)] for _ in range(n)]
    else:
        lo = -5 if rng.random() < 0.15 else 0
        pts = [
            [number(rng, lo, 40, nasty), number(rng, -90, 700, nasty), number(rng, -2, 20, nasty)]
            for _ in range(n)
        ]
        if n > 2 and rng.random() < 0.3:
            pts[rng.randrange(n)] = list(pts[0])  # duplicates are kept
    return {"kind": "cloud", "pts": pts}


def gen_curve(rng, nasty=True):
    name = rng.choice(sorted(CURVES))
    params = [
        rng.choice([number(rng, -3, 30, nasty), rng.randint(-5, 40)]) for _ in range(CURVES[name])
    ]
    # parameters that the functions divide by
    params = [p if p else 1.5 for p in params]
    return {"kind": "curve", "f": name, "params": params, "radians": rng.random() < 0.5}


NAMES = ["Main", "Genoa 1", "Spi, big", "J1:heavy", "a\"b", "Größe", "日本", "", "x;y",
         "line\nbreak", " lead", "Sail 1", "#1", "'q'", "\ttab", "tail "]


def gen_multi(rng, nasty=True, names=None):
    n = rng.choice([1, 2, 2, 3, 4])
    pool = list(names or NAMES)
    rng.shuffle(pool)
    k = rng.choice([0, n, n, max(0, n - 1), n + 1])
    sails = None if k == 0 else pool[:k]
    return {
        "kind": "multi",
        "pds": [gen_table(rng, 4, 5, nasty=nasty) for _ in range(n)],
        "sails": sails,
    }


def gen_any(rng, nasty=True, kinds=("table", "cloud", "curve", "multi")):
    kind = rng.choice(kinds)
    return {"table": gen_table, "cloud": gen_cloud, "curve": gen_curve,
            "multi": gen_multi}[kind](rng, nasty=nasty)


def older(spec):
    """Spec of the same shape (and mostly the same length in a file) with other boat speeds."""
    spec = json.loads(json.dumps(spec))
    if spec["kind"] == "table":
        spec["bsps"] = [[other_digits(x) for x in row] for row in spec["bsps"]]
    elif spec["kind"] == "cloud":
        spec["pts"] = [[*p[:2], other_digits(p[2])] for p in spec["pts"]]
    elif spec["kind"] == "curve":
        spec["params"] = [other_digits(x) or x for x in spec["params"]]
    else:
        spec["pds"] = [older(x) for x in spec["pds"]]
    return spec


# ----------------------------------------------------------- construction
def build(spec):
    import numpy as np
    import hrosailing.core.modelfunctions as mf
    import hrosailing.polardiagram as pol

    kind = spec["kind"]
    if kind == "table":
        return pol.PolarDiagramTable(
            ws_resolution=list(spec["ws"]), wa_resolution=list(spec["wa"]),
            bsps=[list(r) for r in spec["bsps"]],
        )
    if kind == "cloud":
        return pol.PolarDiagramPointcloud(np.array(spec["pts"]).reshape(-1, 3))
    if kind == "curve":
        return pol.PolarDiagramCurve(
            getattr(mf, spec["f"]), *spec["params"], radians=spec["radians"]
        )
    return pol.PolarDiagramMultiSails(
        [build(p) for p in spec["pds"]],
        None if spec["sails"] is None else list(spec["sails"]),
    )


# ------------------------------------------------------ reference content
def expected(spec):
    kind = spec["kind"]
    if kind == "table":
        wa = [float(a) % 360 for a in spec["wa"]]
        ws = [float(w) for w in spec["ws"]]
        rows = sorted(range(len(wa)), key=lambda i: wa[i])
        cols = sorted(range(len(ws)), key=lambda j: ws[j])
        return {
            "kind": "PolarDiagramTable",
            "ws": [ws[j] for j in cols],
            "wa": [wa[i] for i in rows],
            "bsps": [[float(spec["bsps"][i][j]) for j in cols] for i in rows],
        }
    if kind == "cloud":
        return {
            "kind": "PolarDiagramPointcloud",
            "pts": [
                [float(p[0]), float(p[1]) % 360, float(p[2])]
                for p in spec["pts"] if p[0] >= 0
            ],
        }
    if kind == "curve":
        return {
            "kind": "PolarDiagramCurve", "f": spec["f"],
            "params": [float(p) for p in spec["params"]], "radians": spec["radians"],
        }
    n = len(spec["pds"])
    sails = list(spec["sails"] or [])[:n]
    sails += [f"Sail {i}" for i in range(len(sails), n)]
    return {
        "kind": "PolarDiagramMultiSails", "sails": sails,
        "pds": [expected(p) for p in spec["pds"]],
    }


def content(pd):
    """Observable content of a diagram object, through its public interface."""
    import numpy as np

    kind = type(pd).__name__
    if kind == "PolarDiagramTable":
        return {
            "kind": kind,
            "ws": [float(x) for x in pd.wind_speeds],
            "wa": [float(x) for x in pd.wind_angles],
            "bsps": [[float(x) for x in row] for row in np.asarray(pd.boat_speeds)],
        }
    if kind == "PolarDiagramPointcloud":
        return {
            "kind": kind,
            "pts": [[float(x) for x in row] for row in np.asarray(pd.points)],
        }
    if kind == "PolarDiagramCurve":
        return {
            "kind": kind, "f": pd.curve.__name__,
            "params": [float(x) for x in pd.parameters], "radians": bool(pd.radians),
        }
    if kind == "PolarDiagramMultiSails":
        return {
            "kind": kind, "sails": [str(s) for s in pd.sails],
            "pds": [content(d) for d in pd.diagrams],
        }
    return {"kind": kind}


def diff(a, b):
    """First difference of two contents (None if they are equal)."""
    if a == b:
        return None
    if a.get("kind") != b.get("kind"):
        return f"kind {a.get('kind')} became {b.get('kind')}"
    for k in a:
        if a[k] != b.get(k):
            if k == "pds" and len(a[k]) == len(b[k]):
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    d = diff(x, y)
                    if d:
                        return f"diagram {i}: {d}"
            return f"{k}: expected {str(a[k])[:200]} got {str(b.get(k))[:200]}"
    return "unknown keys"


# ----------------------------------------------- files written elsewhere
def external_file(spec, fmt, style):
    """Text of a table file in an external format as other programs write it.
    style: {"crlf", "deg", "blank0"}"""
    e = expected(spec)
    nl = "\r\n" if style.get("crlf") else "\n"

    def num(x):
        return str(int(x)) if float(x).is_integer() and abs(x) < 1e15 else repr(float(x))

    sep = {"orc": ";", "opencpn": ",", "array": "\t"}[fmt]
    first = {"orc": "twa/tws", "opencpn": r"TWA\TWS", "array": r"TWA\TWS"}[fmt]
    lines = [sep.join([first] + [num(w) for w in e["ws"]])]
    if fmt == "orc":
        lines.append(sep.join(["0"] * (len(e["ws"]) + 1)))
    for a, row in zip(e["wa"], e["bsps"]):
        cells = [num(a) + ("°" if style.get("deg") and fmt == "orc" else "")]
        for b in row:
            blank = b == 0 and style.get("blank0") and fmt in ("orc", "opencpn")
            cells.append("" if blank else num(b))
        lines.append(sep.join(cells))
    return nl.join(lines) + nl


def parse_external(text, fmt):
    """Independent reader of the external formats; content of the table."""
    sep = {"orc": ";", "opencpn": ",", "array": "\t"}[fmt]
    rows = [line.split(sep) for line in text.replace("\r\n", "\n").strip("\n").split("\n")]
    ws = [float(x) for x in rows[0][1:]]
    body = rows[2:] if fmt == "orc" else rows[1:]
    wa = [float(r[0].replace("°", "")) for r in body]
    return {
        "kind": "PolarDiagramTable", "ws": ws, "wa": wa,
        "bsps": [[float(x) if x else 0.0 for x in r[1:]] for r in body],
    }


def as_path(name, how, cwd):
    if how == "path":
        return pathlib.Path(cwd) / name
    if how == "relpath":
        return pathlib.Path(name)
    if how == "abs":
        return f"{cwd}/{name}"
    if how == "dot":
        return f"./{name}"
    return name
