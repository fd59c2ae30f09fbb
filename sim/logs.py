"""Simulated measurement links: NMEA streams and csv logs with transmission faults,
and an independent reference of what such a log contains."""
import ast
import datetime as dt

NMEA_CORE = {
    # hrosailing name -> tolerance
    "TWS": 1e-9, "TWA": 1e-9, "AWS": 1e-9, "AWA": 1e-9, "lat": 1e-7, "lon": 1e-7,
    "SOG": 1e-9, "BSP": 1e-9, "Heading": 1e-9, "Heading true degrees": 1e-9,
    "True Course": 1e-9,
}
TO_NMEA = {"TWS": ["Wind speed", "Reference"], "AWS": ["Wind speed", "Reference"],
           "TWA": ["Wind angle", "Reference"], "AWA": ["Wind angle", "Reference"],
           "lat": ["Latitude"], "lon": ["Longitude"], "SOG": ["Speed Over Ground"],
           "date": ["Datestamp"], "time": ["Timestamp"]}
# sentence -> list of (position, NMEA attribute name); positions not listed are fillers
FIELDS = {
    "MWV": ["Wind angle", "Reference", "Wind speed", "Wind speed units", "Status"],
    "RMC": ["Timestamp", "Status", "Latitude", "Latitude Direction", "Longitude",
            "Longitude Direction", "Speed Over Ground", "True Course", "Datestamp",
            "Magnetic Variation", "Magnetic Variation Direction", "Mode Indicator",
            "Navigational Status"],
    "GLL": ["Latitude", "Latitude Direction", "Longitude", "Longitude Direction",
            "Timestamp", "Status", "FAA mode indicator"],
    "VHW": ["Heading true degrees", "heading true", "Heading Magnetic degrees", "Magnetic",
            "Water speed knots", "Knots", "Water speed kilometers", "Kilometers"],
    "HDT": ["Heading", "True"],
}
LOSABLE = {
    "MWV": [0, 1, 2], "RMC": [0, 2, 4, 6, 7, 8], "GLL": [0, 2, 4], "VHW": [0, 2, 4, 6],
    "HDT": [0],
}


def gen_stream(rng, n):
    """n epochs of a boat's instruments; one sentence = [type, fields]."""
    t = dt.datetime(rng.randint(2001, 2030), rng.randint(1, 12), rng.randint(1, 28),
                    rng.choice([0, 12, 23]), rng.choice([0, 30, 59]), rng.randint(0, 59))
    period = rng.choice([0.2, 0.5, 1, 1, 7, 61, 3600])
    lat, lon = rng.uniform(-89, 89), rng.uniform(-179, 179)
    kinds = rng.sample(sorted(FIELDS), rng.randint(1, len(FIELDS)))
    padded = rng.random() < 0.8  # not all instruments send leading zeros
    if rng.random() < 0.3:  # near the equator or the prime meridian
        lat, lon = rng.choice([(lat / 90, lon), (lat, lon / 180), (lat / 9, lon / 18)])
    out = []
    calm = rng.choice([0, 0, 0.1, 0.5])

    def val(hi, digits=1):
        return f"{0 if rng.random() < calm else rng.uniform(0, hi):.{digits}f}"

    for _ in range(n):
        lat = max(-89.9, min(89.9, lat + rng.uniform(-0.01, 0.01)))
        lon = max(-179.9, min(179.9, lon + rng.uniform(-0.01, 0.01)))
        frac = rng.choice(["", "", ".00", ".5", ".25", ".123", f".{rng.randrange(10**6):06d}"[:rng.randint(2, 7)]])
        ts = t.strftime("%H%M%S") + frac
        if rng.random() < 0.02:
            ts = t.strftime("%H%M") + "60" + frac  # leap second
        def pos(x, wide):
            x = abs(x)
            d = int(x)
            return f"{d:0{wide}d}{(x - d) * 60:07.4f}".replace("60.0000", "59.9999")
        la, lo = (pos(lat, 2), pos(lon, 3)) if padded else (pos(lat, 1), pos(lon, 1))
        ns, ew = ("N" if lat >= 0 else "S"), ("E" if lon >= 0 else "W")
        if rng.random() < 0.04:
            ns = ""  # a receiver that leaves out the hemisphere
        if rng.random() < 0.04:
            ew = ""
        for k in kinds:
            if rng.random() < 0.1:
                continue
            if k == "MWV":
                for ref in rng.choice(["R", "T", "RT", "TR"]):
                    out.append([k, [val(359.9), ref, val(40), "N", "A"]])
            elif k == "RMC":
                out.append([k, [ts, "A", la, ns, lo, ew, val(20),
                                val(359.9), t.strftime("%d%m%y"), "003.1", "W", "A", ""]])
            elif k == "GLL":
                out.append([k, [la, ns, lo, ew, ts, "A", "A"]])
            elif k == "VHW":
                out.append([k, [val(359.9), "T", val(359.9), "M",
                                val(20, 2), "N", "", ""]])
            else:
                out.append([k, [val(359.9), "T"]])
        t += dt.timedelta(seconds=period)
    return out, n * period


def gen_link_faults(rng, n):
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, max(1, n // 3)])):
        kind = rng.choice(["loss", "loss", "duplicate", "delay", "empty", "empty", "empty", "reorder"])
        if kind == "empty":
            faults.append([kind, rng.randrange(max(1, n)), rng.random(), rng.randint(1, 3)])
        elif kind == "delay":
            faults.append([kind, rng.randrange(max(1, n)), rng.randint(1, 12)])
        else:
            faults.append([kind, rng.randrange(max(1, n))])
    if rng.random() < 0.12:
        faults.append(["burst-loss", rng.randrange(max(1, n)), rng.randint(2, 20)])
    return faults


def apply_link(stream, faults):
    """The sentences that arrive, and how often each fault took effect."""
    items = [[k, list(f)] for k, f in stream]
    hit = {}
    gone = set()
    extra = []
    order = list(range(len(items)))
    for f in faults:
        kind, i = f[0], f[1]
        if i >= len(items):
            continue
        hit[kind] = hit.get(kind, 0) + 1
        if kind == "loss":
            gone.add(i)
        elif kind == "burst-loss":
            gone.update(range(i, min(len(items), i + f[2])))
        elif kind == "empty":
            fields = LOSABLE[items[i][0]]
            start = int(f[2] * len(fields))
            for j in fields[start: start + f[3]]:
                items[i][1][j] = ""
        elif kind == "duplicate":
            extra.append(i)
        elif kind == "reorder":
            p = order.index(i)
            if p + 1 < len(order):
                order[p], order[p + 1] = order[p + 1], order[p]
        elif kind == "delay":
            p = order.index(i)
            order.pop(p)
            order.insert(min(len(order), p + f[2]), i)
    out = []
    for i in order:
        if i in gone:
            continue
        out.append(items[i])
        out.extend(items[i] for _ in range(extra.count(i)))
    return out, hit


def sentence_text(item, checksum=True):
    body = f"II{item[0]}," + ",".join(item[1])
    if not checksum:
        return "$" + body
    c = 0
    for ch in body:
        c ^= ord(ch)
    return f"${body}*{c:02X}"


# -------------------------------------------------------------- reference
def _time(s):
    if s == "":
        return None
    h, m, sec = int(s[0:2]), int(s[2:4]), int(s[4:6])
    us = round(float("0" + s[6:]) * 1e6) if s[6:] else 0
    if sec >= 60:
        m, sec = m + sec // 60, sec % 60
    if m >= 60:
        h, m = h + m // 60, m % 60
    if h == 24:  # leap second: still the old date
        return dt.time.max.replace(tzinfo=dt.timezone.utc)
    return dt.time(h, m, sec, min(us, 999999), tzinfo=dt.timezone.utc)


def _deg(s, direction):
    if s == "":
        return None
    deg = int(float(s) / 100)
    v = deg + (float(s) - 100 * deg) / 60
    return -v if direction in ("S", "W") else v


def _num(s):
    return None if s == "" else float(s)


def sentence_dict(item, config):
    """The attributes one sentence contributes (all of them, text included)."""
    kind, vals = item
    names = FIELDS[kind]
    raw = {n: (vals[i] if i < len(vals) else None) for i, n in enumerate(names)}
    wanted = config.get("wanted_attributes")
    unwanted = config.get("unwanted_attributes")
    if wanted is not None:
        allowed = set()
        for w in wanted:
            allowed.update(TO_NMEA.get(w, [w]))
        keep = [n for n in names if n in allowed]
    elif unwanted is not None:
        keep = [n for n in names if n not in unwanted]
    else:
        keep = list(names)
    out = {}
    for n in keep:
        v = raw[n]
        if n in ("Wind angle", "Wind speed", "Speed Over Ground", "True Course", "Heading",
                 "Heading true degrees", "Heading Magnetic degrees", "Water speed knots",
                 "Water speed kilometers"):
            v = _num(v or "")
        elif n == "Timestamp":
            v = _time(v or "")
        elif n == "Datestamp":
            v = None if not v else dt.datetime.strptime(v, "%d%m%y").date()
        elif n == "Latitude":
            v = _deg(v or "", raw["Latitude Direction"])
        elif n == "Longitude":
            v = _deg(v or "", raw["Longitude Direction"])
        out[n] = v
    if "Reference" in out:
        ref = out.pop("Reference")
        for n, suffix in (("Wind angle", "WA"), ("Wind speed", "WS")):
            if n in out:
                v = out.pop(n)
                if ref == "R":
                    out["A" + suffix] = v
                elif ref == "T":
                    out["T" + suffix] = v
    return out


STANDARD = {"Wind speed": "TWS", "Wind angle": "TWA", "Speed Over Ground": "SOG",
            "Water speed knots": "BSP", "Latitude": "lat", "Longitude": "lon",
            "Timestamp": "time", "Datestamp": "date"}


def reference_nmea(items, config):
    """Rows of the log as a list of dicts with hrosailing names."""
    rows = []
    for item in items:
        if config.get("wanted_sentences") is not None:
            if item[0] not in config["wanted_sentences"]:
                continue
        elif config.get("unwanted_sentences") is not None:
            if item[0] in config["unwanted_sentences"]:
                continue
        d = sentence_dict(item, config)
        if not d:
            continue
        if rows and all(rows[-1].get(k) is None for k in d):
            rows[-1].update(d)
        else:
            rows.append(dict(d))
    keys = {k for r in rows for k in r}
    combine = "Timestamp" in keys and "Datestamp" in keys
    out = []
    for r in rows:
        new = {STANDARD.get(k, k): v for k, v in r.items()}
        if combine:
            d, t = new.pop("date", None), new.pop("time", None)
            new["datetime"] = dt.datetime.combine(d, t) if d is not None and t is not None else None
        out.append(new)
    return out


def close_enough(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, dt.datetime):
        return isinstance(a, dt.datetime) and (a.tzinfo is None) == (b.tzinfo is None) \
            and abs((a - b).total_seconds()) <= 5e-6
    if isinstance(b, dt.time):
        if not isinstance(a, dt.time) or a.utcoffset() != b.utcoffset():
            return False
        sec = [x.hour * 3600 + x.minute * 60 + x.second + x.microsecond * 1e-6 for x in (a, b)]
        return abs(sec[0] - sec[1]) <= 5e-6
    if isinstance(b, dt.date):
        return a == b
    if isinstance(b, str) and b in SAIL_NAMES:
        return a == b
    try:
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


def compare_rows(data, rows, tol=None):
    """First difference between a Data table and reference rows (core columns)."""
    tol = tol or NMEA_CORE
    if data.n_rows != len(rows):
        return f"{data.n_rows} records instead of {len(rows)}"
    for key in data.keys():
        if len(data[key]) != data.n_rows:
            return f"column {key} has {len(data[key])} of {data.n_rows} rows"
    keys = {k for r in rows for k in r}
    for key in sorted(keys):
        if key not in tol and key not in ("time", "date", "datetime"):
            continue
        want = [r.get(key) for r in rows]
        if key not in data:
            if any(v is not None for v in want):
                return f"column {key} is missing"
            continue
        for i, (a, b) in enumerate(zip(data[key], want)):
            if not close_enough(a, b, tol.get(key, 0)):
                return f"{key}[{i}] is {a!r}, the log has {b!r}"
    for key in data.keys():
        if (key in tol or key in ("time", "date", "datetime")) and key not in keys:
            if any(v is not None and not isinstance(v, str) for v in data[key]):
                return f"column {key} was never received"
    return None


# ------------------------------------------------------------------- csv
CSV_NAMES = {
    "TWS": ["TWS", "wind speed", "True_Wind_Speed", "ws", "Wind speeds", " tws", "WSPD"],
    "TWA": ["TWA", "wind angle", "true-wind-angle", "wa", "twa "],
    "BSP": ["BSP", "boat speed", "Vessel_Speed", "bsps", "water speed"],
    "AWS": ["AWS", "apparent wind speed", "apparent_wind"],
    "SOG": ["SOG", "speed over ground"],
    "lat": ["lat", "Latitude"],
    "lon": ["lon", "long", "Longitude"],
    "temp": ["temperature", "temp"],
    "depth": ["depth"],
    "datetime": ["datetime", "date time", "Date_Time"],
    "sail": ["sail"],
}
SAIL_NAMES = ["G#1", "Genua, old", "#2", "J 1", "50%", "a;b", "Große Fock", "N/A", "None", "x  y", " J", "tab\tbed"]
FMT = "%Y-%m-%d %H:%M:%S.%f"


def gen_csv(rng, n):
    cols = rng.sample(sorted(CSV_NAMES), rng.randint(1, 6))
    names = [rng.choice(CSV_NAMES[c]) for c in cols]
    t = dt.datetime(rng.randint(2000, 2030), rng.randint(1, 12), rng.randint(1, 28),
                    rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    rows = []
    for i in range(n):
        row = []
        for c in cols:
            if c == "datetime":
                row.append((t + dt.timedelta(seconds=i * 1.5)).strftime(FMT))
            elif c == "sail":  # text has to be given as a literal
                row.append(repr(rng.choice(SAIL_NAMES)))
            elif rng.random() < 0.2:
                row.append(str(rng.choice([0, rng.randint(0, 50)])))
            else:
                row.append(f"{rng.uniform(-20, 360):.{rng.randint(1, 6)}{'e' if rng.random() < 0.05 else 'f'}}")
        rows.append(row)
    return {"cols": cols, "names": names, "rows": rows}


def csv_reference(table):
    out = []
    for row in table["rows"]:
        d = {}
        for c, cell in zip(table["cols"], row):
            if cell == "":
                d[c] = None
            elif c == "datetime":
                d[c] = dt.datetime.strptime(cell, FMT)
            elif c == "sail":
                d[c] = ast.literal_eval(cell)
            else:
                d[c] = float(cell)
        out.append(d)
    return out


def _cell(cell):
    return f'"{cell}"' if "," in cell else cell


def csv_text(table, nl="\n", final_nl=True, extra=None, short=None, blank=None):
    lines = [",".join(table["names"])] + [",".join(map(_cell, r)) for r in table["rows"]]
    for i, n in short or []:  # the rest of the line was lost; the cells are empty already
        i %= len(table["rows"])
        if n < len(table["rows"][i]) and table["rows"][i][0] != "":
            lines[i + 1] = ",".join(map(_cell, table["rows"][i][:n]))
    for i in blank or []:
        lines.insert(1 + i % len(lines), "")
    if extra is not None:  # separators that do not belong there
        where, what = extra
        for i in range(1, len(lines)):
            if where == "all" or i - 1 == where % (len(lines) - 1):
                lines[i] += "," + what
    return nl.join(lines) + (nl if final_nl else "")
