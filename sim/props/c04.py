"""C04: failing reads surface as errors, never as partial results."""
import errno
import os

from sim import diagrams as dg, logs, weather as wx
from sim.core import uninstalled
from sim.props.c01 import smaller_specs

RUNS = {"quick": 900, "thorough": 90000}
LEVEL = "fault_enumeration"
RULE = ("A run writes files of all readable kinds (diagrams in every format, gridded weather, "
        "csv and NMEA logs) and reads them several times while the simulated disk fails at "
        "seeded opens and reads or delivers short and interrupted reads; every outcome is "
        "compared with the undisturbed read. Non-trivial: at least one fault fired. Distinct "
        "by digest.")
STATE_MEASURE = "distinct (kind of file, fired fault, outcome, file content)"
REAL = ("from_csv of all diagrams and formats, GriddedWeatherModel.from_file, "
        "CsvFileHandler, NMEAFileHandler, csv, json, pandas, pynmea2, Python buffered I/O")
STUB = "disk: system calls below the scratch directory pass a fault injecting shim"
ASSUMPTIONS = ["a failing read reports an error (the disk does not fake an end of file)"]


def gen_file(rng):
    r = rng.random()
    if r < 0.5:
        if rng.random() < 0.25:
            from sim.props.c02 import big

            spec = big(rng)
        else:
            spec = dg.gen_any(rng)
        fmt = "hro"
        if spec["kind"] == "table":
            fmt = rng.choice(["hro", "orc", "opencpn", "array"])
        return {"what": "diagram", "spec": spec, "fmt": fmt, "cut": rng.random() if rng.random() < 0.1 else None}
    if r < 0.65:
        return {"what": "weather", "spec": wx.gen_spec(rng, big=rng.random() < 0.2)}
    if r < 0.85:
        stream, _ = logs.gen_stream(rng, rng.choice([0, 1, 4, rng.randint(3, 60)]))
        return {"what": "nmea", "lines": [logs.sentence_text(i, rng.random() < 0.7) for i in stream]}
    return {"what": "csv", "table": logs.gen_csv(rng, rng.choice([1, 2, 20, 300]))}


def gen_plan(rng):
    rules = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.choice(["open_r", "read", "read", "read", "close"])
        act, arg = "err", {"open_r": rng.choice([errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT]),
                           "read": rng.choice([errno.EIO, errno.ESTALE, errno.ENOMEM]),
                           "close": errno.EIO}[op]
        if op == "read" and rng.random() < 0.4:
            act, arg = rng.choice([("short", 1), ("short", 17), ("short", 1000), ("eintr", 0)])
        nth = 1 if op != "read" else rng.choice([1, 1, 2, 2, 3, rng.randint(1, 8)])
        if op == "open_r" and rng.random() < 0.4:
            nth = rng.randint(1, 6)
        rules.append([op, nth, act, arg])
    return rules


def generate(rng, tier):
    files = [gen_file(rng) for _ in range(rng.choice([1, 1, 2]))]
    reads = [{"file": rng.randrange(len(files)), "rules": gen_plan(rng)}
             for _ in range(rng.randint(2, 8 if tier == "quick" else 20))]
    for read in reads:
        if rng.random() < 0.15:  # one of the files is away during the read (a share that is not mounted)
            read.update({"away": rng.random(), "rules": []})
    return {"files": files, "reads": reads, "without": ["pandas"] if rng.random() < 0.1 else []}


SHRINK_LISTS = [("reads",)]


def data_content(d):
    return {"names": list(map(str, d.keys())), "n": int(d.n_rows),
            "cols": {str(n): [repr(x) for x in d[n]] for n in d.keys()}}


def snapshot(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            st = os.stat(p)
            out[p] = (st.st_mtime_ns, st.st_size, open(p, "rb").read())
        for n in dirs:
            out[os.path.join(base, n)] = None
    return out


def execute(scn, ctx):
    for name in scn.get("without", []):
        ctx.res.fault(f"without-{name}")
        uninstalled(name)
    import hrosailing.polardiagram as pol
    from hrosailing.models import GriddedWeatherModel
    from hrosailing.processing import CsvFileHandler, NMEAFileHandler

    res = ctx.res
    readers = []
    for k, f in enumerate(scn["files"]):
        path = os.path.join(ctx.scratch, f"file{k}.csv")
        if f["what"] == "diagram":
            args = (f["fmt"],) if f["fmt"] != "hro" else ()
            ctx.must("write", dg.build(f["spec"]).to_csv, path, *args)
            if f["cut"] is not None:
                data = open(path, "rb").read()
                open(path, "wb").write(data[: int(f["cut"] * len(data))])
            read = lambda path=path, f=f: dg.content(pol.from_csv(path, f["fmt"]))
        elif f["what"] == "weather":
            ctx.must("write", wx.build(f["spec"]).to_file, path)
            read = lambda path=path: wx.content(GriddedWeatherModel.from_file(path))
        elif f["what"] == "nmea":
            with open(path, "w", encoding="utf-8") as fh:
                fh.write("".join(line + "\n" for line in f["lines"]))
            read = lambda path=path, hd=NMEAFileHandler(): data_content(hd.handle(path))
        else:
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(logs.csv_text(f["table"]))
            read = lambda path=path, hd=CsvFileHandler(): data_content(hd.handle(path))
        readers.append(read)

    def outcome(read):
        """Result or error, and the descriptors that are open while its caller handles it"""
        try:
            out = ("ok", read())
        except Exception as exc:  # pylint: disable=broad-except
            return ("err", type(exc).__name__), ctx.disk.open_fds()
        return out, ctx.disk.open_fds()

    def label(f):
        return f["what"] if f["what"] != "diagram" else f"{f['spec']['kind']}:{f['fmt']}"

    clean = []
    for k, r in enumerate(readers):
        ctx.disk.begin({})
        got, fds = outcome(r)
        ctx.disk.end()
        clean.append(got)
        if fds:
            res.fail(f"handle-left-open:{label(scn['files'][k])}", f"{fds} after an undisturbed read: {got[0]}")
            return
    for f, c in zip(scn["files"], clean):
        if c[0] == "err" and f.get("cut") is None:
            res.fail(f"undisturbed-read-fails:{label(f)}", c[1])
            return
    before = snapshot(ctx.scratch)
    for k, op in enumerate(scn["reads"]):
        f, read, want = scn["files"][op["file"]], readers[op["file"]], clean[op["file"]]
        where = label(f)
        away = None
        if op.get("away") is not None:
            mine = sorted(n for n in os.listdir(ctx.scratch) if n.startswith(f"file{op['file']}"))
            away = os.path.join(ctx.scratch, mine[int(op["away"] * len(mine))])
            os.rename(away, ctx.scratch + ".away")
        ctx.disk.begin({"rules": op["rules"]})
        got, fds = outcome(read)
        ctx.disk.end()
        fired = ctx.disk.fired()
        if away:
            os.rename(ctx.scratch + ".away", away)
            fired = fired + [("open_r", "err", errno.ENOENT)]
        for x in fired:
            res.fault(f"{x[0]}-{x[1]}")
        res.nontrivial |= bool(fired)
        res.log(f"read {k} {where} {op['rules']} fired {fired} ->", got[0], got[1] if got[0] == "err" else "")
        res.state([where, fired, got[0], str(want)])
        if fds:
            res.fail(f"handle-left-open:{where}", f"{fds} after {fired}")
        hard = [x for x in fired if x[1] == "err"]
        if got[0] == "ok" and got != want:
            res.fail(f"partial-result:{where}", f"{fired}: {str(got[1])[:300]} instead of {str(want)[:300]}")
        if got[0] == "err" and want[0] == "ok" and not hard:
            res.fail(f"transparent-fault-read-fails:{where}", f"{got[1]} under {fired}")
        if snapshot(ctx.scratch) != before:
            res.fail(f"read-changes-files:{where}", str(fired))
        again, _ = outcome(read)
        if again != want:
            res.fail(f"later-read-differs:{where}", f"after {fired}: {str(again)[:300]} instead of {str(want)[:300]}")
        if res.violations:
            return


def shrink(scn):
    import json

    for i, f in enumerate(scn["files"]):
        if f["what"] == "nmea":
            for j in range(len(f["lines"]) - 1, -1, -1):
                c = json.loads(json.dumps(scn))
                del c["files"][i]["lines"][j]
                yield c
        if f["what"] == "diagram":
            for spec in smaller_specs(f["spec"]):
                c = json.loads(json.dumps(scn))
                c["files"][i]["spec"] = spec
                yield c
    for i, op in enumerate(scn["reads"]):
        for j in range(len(op["rules"])):
            c = json.loads(json.dumps(scn))
            del c["reads"][i]["rules"][j]
            yield c
