"""C06: measurement logs are read record by record, whatever is lost."""
import os

from sim import logs
from sim.core import uninstalled

RUNS = {"quick": 1500, "thorough": 150000}
LEVEL = "exploration"
RULE = ("A run sends seeded instrument streams (NMEA sentences or csv rows) through a link "
        "that loses, duplicates, delays, reorders, damages and cuts messages and empties "
        "fields, and reads the arriving logs with one or more reused handlers; non-trivial: "
        "a log with at least two records was read. Distinct by digest.")
STATE_MEASURE = "distinct (handler, configuration, arrived log)"
REAL = "NMEAFileHandler, CsvFileHandler, ArrayHandler, Data, pynmea2, pandas"
STUB = "the instrument link (simulated), files are real"
ASSUMPTIONS = ["wind speeds are sent in knots", "damage of a sentence is visible in its checksum"]


def gen_config(rng):
    cfg = {}
    r = rng.random()
    if r < 0.2:
        cfg["wanted_sentences"] = rng.sample(sorted(logs.FIELDS), rng.randint(1, 3))
    elif r < 0.35:
        cfg["unwanted_sentences"] = rng.sample(sorted(logs.FIELDS), rng.randint(1, 3))
    r = rng.random()
    if r < 0.2:
        cfg["wanted_attributes"] = rng.sample(
            ["TWS", "TWA", "AWS", "lat", "lon", "SOG", "date", "time", "Water speed knots", "Heading"],
            rng.randint(1, 5))
    elif r < 0.35:
        cfg["unwanted_attributes"] = rng.sample(
            ["Latitude", "Longitude", "Timestamp", "Status", "Heading", "Wind speed", "Datestamp"],
            rng.randint(1, 3))
    if rng.random() < 0.2:
        cfg["post_filter_types"] = False
    return cfg


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.7:
            stream, sim = logs.gen_stream(rng, rng.choice([0, 1, 2, 5, rng.randint(3, 25)]))
            op = {"op": "nmea", "stream": stream, "faults": logs.gen_link_faults(rng, len(stream)),
                  "sim": sim, "crlf": rng.random() < 0.2, "checksum": rng.random() < 0.7,
                  "final_nl": rng.random() < 0.8}
            if rng.random() < 0.12:
                op["damage"] = [rng.random(), rng.random(), rng.choice("#0x9A,")]
            elif rng.random() < 0.15:
                op["cut"] = rng.random()
            ops.append(op)
        else:
            t = logs.gen_csv(rng, rng.choice([1, 2, rng.randint(2, 20)]))
            lost = []
            for _ in range(rng.choice([0, 0, 1, 3, 10])):
                lost.append([rng.randrange(len(t["rows"])), rng.randrange(len(t["cols"]))])
            op = {"op": rng.choice(["csv", "csv", "csv", "frame", "array"]), "table": t, "lost": lost,
                  "gone": [rng.randrange(len(t["rows"])) for _ in range(rng.choice([0, 0, 1, 3]))],
                  "crlf": rng.random() < 0.2, "final_nl": rng.random() < 0.7}
            if op["op"] == "csv" and rng.random() < 0.15:
                op["cut"] = rng.random()
            elif op["op"] == "csv" and rng.random() < 0.15:
                op["extra"] = [rng.choice(["all", 0, 0, rng.randrange(20)]), rng.choice(["", "", "7.5"])]
            elif rng.random() < 0.3:  # lines that end too early, blank lines
                op["short"] = [[rng.randrange(20), rng.randint(1, 5)] for _ in range(rng.randint(0, 3))]
                op["blank"] = [rng.randrange(20) for _ in range(rng.randint(0, 2))]
            ops.append(op)
    return {"config": gen_config(rng), "ops": ops, "reuse": rng.random() < 0.7, "once": rng.random() < 0.2,
            "without": ["pandas"] if rng.random() < 0.15 else []}


def _handler(cfg, once=False):
    from hrosailing.processing import NMEAFileHandler

    if once:  # an iterable that can be iterated once
        cfg = {k: iter(v) if isinstance(v, list) else v for k, v in cfg.items()}
    return NMEAFileHandler(**cfg)


def execute(scn, ctx):
    res = ctx.res
    for name in scn.get("without", []):
        res.fault(f"without-{name}")
        uninstalled(name)

    from hrosailing.processing import ArrayHandler, CsvFileHandler

    hs = {}

    def handler(kind, make):
        if not scn["reuse"] or kind not in hs:
            hs[kind] = make()
        return hs[kind]

    for k, op in enumerate(scn["ops"]):
        path = os.path.join(ctx.scratch, f"log{k}.txt")
        nl = "\r\n" if op.get("crlf") else "\n"
        if op["op"] == "nmea":
            items, hit = logs.apply_link(op["stream"], op["faults"])
            for f, n in hit.items():
                res.fault(f"link-{f}", n)
            lines = [logs.sentence_text(i, op["checksum"]) for i in items]
            expect_error, torn = False, None
            if op.get("damage") and lines:
                i = int(op["damage"][0] * len(lines))
                line = logs.sentence_text(items[i], True)
                j = 1 + int(op["damage"][1] * (len(line) - 4))
                if line[j] != op["damage"][2] and line[j] != "*":
                    lines[i] = line[:j] + op["damage"][2] + line[j + 1:]
                    expect_error = i
                    res.fault("link-damaged-sentence")
            text = nl.join(lines) + (nl if lines and op["final_nl"] else "")
            if "cut" in op and lines and expect_error is False:
                # the log ends somewhere inside its last sentence
                keep = max(0, len(text) - 1 - int(op["cut"] * len(lines[-1])))
                text = text[:keep]
                torn = len(items) - 1
                res.fault("link-cut-off")
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            rows = logs.reference_nmea(items, scn["config"])
            hd = handler("nmea", lambda: _handler(dict(scn["config"]), scn.get("once")))
            err = data = None
            try:
                data = hd.handle(path)
            except Exception as exc:  # pylint: disable=broad-except
                err = f"{type(exc).__name__}: {exc}"
            res.log("nmea", k, len(items), hit, "->", err or data.n_rows)
            res.sim_time += op["sim"]
            if expect_error is not False:
                kind = items[expect_error][0]
                cfg = scn["config"]
                skipped = (
                    (cfg.get("wanted_sentences") is not None and kind not in cfg["wanted_sentences"])
                    or (cfg.get("unwanted_sentences") is not None and kind in cfg["unwanted_sentences"]
                        and cfg.get("wanted_sentences") is None))
                if err is None:
                    # only acceptable if the damaged sentence was not to be read: the
                    # rest of the log must be unaffected
                    rest = logs.reference_nmea(
                        [x for n, x in enumerate(items) if n != expect_error], cfg)
                    d1, d2 = logs.compare_rows(data, rest), logs.compare_rows(data, rows)
                    if d1 and not (skipped and d2 is None):
                        res.fail("damaged-sentence-read", f"{lines[expect_error]}: {d1}")
                continue
            if torn is not None:
                res.count("torn_logs")
                if err is None:
                    # everything before the torn sentence is as sent
                    before = logs.reference_nmea(items[:torn], scn["config"])
                    d = _prefix(data, before, rows)
                    if d:
                        res.fail("cut-off-log", f"{d} (cut inside {lines[-1]})")
                continue
            if err is not None:
                res.fail("log-refused:nmea", f"{err} for {len(items)} arrived sentences")
                break
            d = logs.compare_rows(data, rows)
            if d:
                res.fail("wrong-records:nmea", f"{d}; config {scn['config']}")
            _stats(res, hd, data, "nmea")
            res.count("logs")
            res.state(["nmea", scn["config"], text])
            res.nontrivial |= len(rows) > 1
        else:
            t = {"cols": op["table"]["cols"], "names": op["table"]["names"],
                 "rows": [list(r) for r in op["table"]["rows"]]}
            for i, j in op["lost"]:
                t["rows"][i][j] = ""
                res.fault("cell-lost")
            t["rows"] = [r for i, r in enumerate(t["rows"]) if i not in op["gone"]]
            res.fault("row-lost", len(op["gone"]))
            # a line of one empty cell is a blank line in csv
            t["rows"] = [r for r in t["rows"] if len(r) > 1 or r[0] != ""]
            if not t["rows"]:
                continue
            if op["op"] == "frame" and scn.get("without"):
                continue
            for i, n in op.get("short", []) if op["op"] == "csv" else []:
                row = t["rows"][i % len(t["rows"])]
                if n < len(row) and row[0] != "":
                    row[n:] = [""] * (len(row) - n)
                    res.fault("line-too-short")
            rows = logs.csv_reference(t)
            tol = {c: 1e-12 for c in t["cols"]}
            if op["op"] == "csv":
                text = logs.csv_text(t, nl, op["final_nl"], op.get("extra"), op.get("short"), op.get("blank"))
                if "extra" in op:
                    res.fault("cells-too-many")
                cut = None
                if "cut" in op:
                    cut = int(op["cut"] * len(text))
                    text = text[:cut]
                    res.fault("link-cut-off")
                with open(path, "w", encoding="utf-8", newline="") as f:
                    f.write(text)
                hd = handler("csv", CsvFileHandler)
                arg = path
            elif op["op"] == "frame":
                import pandas as pd

                cut = None
                hd = handler("array", ArrayHandler)
                arg = pd.DataFrame({n: [r[c] for r in rows] for n, c in zip(t["names"], t["cols"])})
            else:
                cut = None
                if any(v is None for r in rows for v in r.values()) or {"datetime", "sail"} & set(t["cols"]):
                    continue
                import numpy as np

                hd = handler("array", ArrayHandler)
                arg = (np.array([[r[c] for c in t["cols"]] for r in rows]), tuple(t["names"]))
            err = data = None
            try:
                data = hd.handle(arg)
            except Exception as exc:  # pylint: disable=broad-except
                err = f"{type(exc).__name__}: {exc}"
            res.log(op["op"], k, len(rows), "->", err or data.n_rows)
            if cut is not None:
                if err is None and "\n" in text:
                    done = text[: text.rindex("\n")].replace("\r", "").split("\n")[1:]
                    d = _prefix(data, rows[: len(done)], rows, tol)
                    if d and len(done) > 0:
                        res.fail("cut-off-log:csv", d)
                continue
            if "extra" in op:  # may be refused
                d = None if err else logs.compare_rows(data, rows, tol)
                if d:
                    res.fail("cells-too-many", f"{op['extra']}: {d}")
                continue
            if err is not None:
                res.fail(f"log-refused:{op['op']}", err)
                break
            d = logs.compare_rows(data, rows, tol)
            if d:
                res.fail(f"wrong-records:{op['op']}", d)
            if data.n_cols != len(t["cols"]):
                res.fail(f"columns-lost:{op['op']}", f"{data.n_cols} of {len(t['cols'])}")
            _stats(res, hd, data, op["op"])
            res.count("logs")
            res.state([op["op"], t])
            res.nontrivial |= len(rows) > 1


def _stats(res, hd, data, kind):
    st = hd.get_latest_statistics()
    if st.get("n_rows") != data.n_rows or st.get("n_cols") != data.n_cols:
        res.fail(f"statistics:{kind}", f"{st} for {data.n_rows} x {data.n_cols}")


def _prefix(data, before, full, tol=None):
    """The complete part of a cut-off log is as sent; at most one record follows or
    is completed by what is left of the last one."""
    tol = tol or logs.NMEA_CORE
    n = len(before)
    if data.n_rows < n or data.n_rows > max(n + 1, len(full)):
        return f"{data.n_rows} records instead of {n} or {n + 1}"
    for i, row in enumerate(before):
        for key, v in row.items():
            if v is None or key in ("time", "date", "datetime"):
                continue
            if key not in tol:
                continue
            got = data[key][i] if key in data else None
            if not logs.close_enough(got, v, tol[key]):
                if key not in data:
                    continue  # type of the whole column became text by the torn value
                return f"{key}[{i}] is {got!r}, the log has {v!r}"
    return None


def shrink(scn):
    import json

    for i, op in enumerate(scn["ops"]):
        if op["op"] == "nmea":
            for j in range(len(op["faults"])):
                c = json.loads(json.dumps(scn))
                del c["ops"][i]["faults"][j]
                yield c
            n = len(op["stream"])
            for j in range(n - 1, -1, -1):
                c = json.loads(json.dumps(scn))
                del c["ops"][i]["stream"][j]
                c["ops"][i]["faults"] = [
                    [f[0], f[1] - (f[1] > j)] + f[2:] for f in op["faults"]
                ]
                yield c
        else:
            for j in range(len(op["lost"])):
                c = json.loads(json.dumps(scn))
                del c["ops"][i]["lost"][j]
                yield c
    if scn["config"]:
        c = json.loads(json.dumps(scn))
        c["config"] = {}
        yield c

