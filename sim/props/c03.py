"""C03: files of a save that a crash interrupted never load as something else."""
import json
import os

from sim import diagrams as dg
from sim.core import h, run_in_child
from sim.props.c01 import smaller_specs
from sim.props.c02 import _args, measure

RUNS = {"quick": 250, "thorough": 40000}
LEVEL = "fault_enumeration"
RULE = ("A run saves a diagram (over older files in half of the runs) in a process that "
        "dies at seeded bytes or system calls of the save, cuts or zero-fills the ends of "
        "the files the dead process was writing, and loads the result in a new process; small saves are cut at "
        "every byte. Non-trivial: at least one crash happened. Distinct by digest.")
STATE_MEASURE = "distinct (diagram kind, format, crash place, tail damage, load outcome)"
REAL = "to_csv/from_csv of all diagram kinds, csv, Python buffered text I/O, kernel file system"
STUB = "process death and lost tails are injected by the disk shim below the scratch directory"
ASSUMPTIONS = ["a crash leaves of every file that was being written a prefix, possibly "
               "followed by zero bytes (no reordering of blocks inside one file), and of the files that "
               "were being created any subset"]


def gen_cut(rng):
    cut = {"at": rng.random(), "how": rng.choice(["byte", "byte", "byte", "op"])}
    if rng.random() < 0.12:
        cut["at"] = rng.choice([0.0, 1.0])
    r = rng.random()
    if r < 0.25:
        cut["tail"] = ["lost", rng.choice([1, 2, 3, 8, 30, 400]), rng.random()]
    elif r < 0.5:
        cut["tail"] = ["zeros", rng.choice([1, 2, 3, 8, 30, 400]), rng.random()]
    elif r < 0.6:
        cut["tail"] = ["grown", rng.choice([1, 16, 512]), rng.random()]
    elif r < 0.75:
        cut["tail"] = ["gone", rng.choice([1, 1, 1, 2]), rng.random()]
        cut["at"] = rng.uniform(0.7, 1)
    return cut


def generate(rng, tier):
    spec = dg.gen_any(rng)
    if rng.random() < 0.08:  # many sails
        spec = {"kind": "multi", "sails": [f"s{i}" for i in range(5)],
                "pds": [dg.gen_table(rng, max_ws=3, max_wa=3) for _ in range(5)]}
    fmt = "hro"
    if spec["kind"] == "table":
        fmt = rng.choice(["hro", "hro", "orc", "opencpn", "array"])
    old = None
    if rng.random() < 0.5:
        old = dg.gen_any(rng, kinds=(spec["kind"],) if rng.random() < 0.7 else
                         ("table", "cloud", "curve", "multi"))
        if rng.random() < 0.5:
            old = dg.older(spec)  # an update of the same shape
    n = rng.randint(4, 14 if tier == "quick" else 40)
    every = rng.random() < (0.03 if tier == "quick" else 0.3)
    return {"spec": spec, "fmt": fmt, "old": old, "every_byte": every,
            "cuts": [gen_cut(rng) for _ in range(n)]}


SHRINK_LISTS = [("cuts",)]


def prefix_of(got, want):
    """None if `got` is `want` up to missing trailing entries and the last entry
    that is present; else a description."""
    if got["kind"] != want["kind"]:
        return f"kind {want['kind']} became {got['kind']}"
    kind = want["kind"]
    if kind == "PolarDiagramTable":
        if got["ws"] != want["ws"]:
            return f"wind speeds {want['ws']} became {got['ws']}"
        n = len(got["wa"])
        if got["wa"] != want["wa"][:n]:
            return f"wind angles {want['wa']} became {got['wa']}"
        return _grid(got["bsps"], want["bsps"])
    if kind == "PolarDiagramPointcloud":
        return _grid(got["pts"], want["pts"])
    if kind == "PolarDiagramCurve":
        if got["f"] != want["f"] or got["radians"] != want["radians"]:
            return f"curve {want['f']}/{want['radians']} became {got['f']}/{got['radians']}"
        return _grid([got["params"]], [want["params"][: len(got["params"])]])
    return "unknown kind"


def _grid(got, want):
    if len(got) > len(want):
        return f"{len(got)} rows instead of {len(want)}"
    flat_g = [(i, j, x) for i, row in enumerate(got) for j, x in enumerate(row)]
    for i, row in enumerate(got):
        if len(row) != len(want[i]):
            return f"row {i} has {len(row)} entries instead of {len(want[i])}"
    for i, j, x in flat_g[:-1]:
        if x != want[i][j]:
            return f"entry [{i}][{j}] is {x!r}, saved was {want[i][j]!r}"
    return None


def acceptable(got, want, old):
    """None or the reason why `got` is neither what was saved nor older content."""
    if old is not None and got == old:
        return None
    if want["kind"] != "PolarDiagramMultiSails":
        return prefix_of(got, want)
    if got["kind"] != "PolarDiagramMultiSails":
        return f"kind became {got['kind']}"
    reasons = []
    for src in [want] + ([old] if old and old["kind"] == want["kind"] else []):
        n = len(got["sails"])
        if n > len(src["sails"]) or got["sails"][: max(0, n - 1)] != src["sails"][: max(0, n - 1)] or (
            n and not src["sails"][n - 1].startswith(got["sails"][n - 1].rstrip("\0"))
        ):
            reasons.append(f"sails {src['sails']} became {got['sails']}")
            continue
        if len(got["pds"]) != n:
            reasons.append(f"{n} sails with {len(got['pds'])} diagrams")
            continue
        bad = None
        for i, pd in enumerate(got["pds"]):
            cands = [s["pds"][i] for s in ([want] + ([old] if old and old["kind"] == want["kind"] else []))
                     if i < len(s["pds"])]
            why = [prefix_of(pd, c) for c in cands]
            if all(why):
                bad = f"sail {i}: {why}"
        if bad is None:
            return None
        reasons.append(bad)
    return "; ".join(map(str, reasons))


def damage(paths, tail, new):
    """Deterministic loss at the end of one of the files."""
    kind, n, frac = tail
    paths = sorted(paths)
    if not paths:
        return None
    if kind == "gone":  # the names of files the dead process had created are lost
        lost = [p for p in paths if p in new]
        lost = [p for p in lost if "_sail_" in p] or lost
        for _ in range(min(n, len(lost))):
            os.unlink(lost.pop(int(frac * len(lost))))
        return f"{len(paths)} files" if lost else None
    path = paths[min(len(paths) - 1, int(frac * len(paths)))]
    data = open(path, "rb").read()
    if kind == "lost":
        data = data[: max(0, len(data) - n)]
    elif kind == "zeros":
        k = min(n, len(data))
        data = data[: len(data) - k] + b"\0" * k
    else:
        data = data + b"\0" * n
    with open(path, "wb") as f:
        f.write(data)
    return os.path.basename(path)


def execute(scn, ctx):
    import hrosailing.polardiagram as pol

    res = ctx.res
    spec, fmt = scn["spec"], scn["fmt"]
    want = dg.expected(spec)
    old = dg.expected(scn["old"]) if scn["old"] else None
    where = f"{want['kind']}:{fmt}"
    m = measure(ctx, spec, fmt)
    if m is None:
        raise RuntimeError("dry run failed")
    cuts = list(scn["cuts"])
    if scn["every_byte"] and m["bytes"] <= 600:
        cuts += [{"byte": b, "how": "byte"} for b in range(0, m["bytes"] + 1)]
    for k, cut in enumerate(cuts):
        d = os.path.join(ctx.scratch, f"c{k}")
        os.makedirs(d)
        path = os.path.join(d, "boat.csv")
        if scn["old"]:
            ctx.must("save-old", dg.build(scn["old"]).to_csv, path,
                     *_args(scn["old"], fmt))
        before = {n: (os.stat(os.path.join(d, n)).st_mtime_ns, open(os.path.join(d, n), "rb").read())
                  for n in os.listdir(d)}
        plan = {}
        if cut["how"] == "byte":
            plan["crash_at"] = cut["byte"] if "byte" in cut else int(cut["at"] * m["bytes"])
        else:
            plan["crash_op"] = int(cut["at"] * m["total"])

        def body():
            pd = dg.build(spec)
            ctx.disk.begin(plan)
            pd.to_csv(path, *_args(spec, fmt))
            ctx.disk.end()
            return "finished"

        st, out = run_in_child(body)
        crashed = st == 77
        if not crashed and out is None:
            res.fail(f"raised:save:{where}", f"status {st}")
            return
        if crashed:
            res.fault(f"crash-{cut['how']}")
            res.nontrivial = True
        touched = [os.path.join(d, n) for n in os.listdir(d)
                   if n not in before or open(os.path.join(d, n), "rb").read() != before[n][1]]
        hit = None
        if crashed and cut.get("tail"):
            hit = damage(touched, cut["tail"], [p for p in touched if os.path.basename(p) not in before])
            if hit:
                res.fault(f"tail-{cut['tail'][0]}")

        def load():
            try:
                return {"got": dg.content(pol.from_csv(path, fmt))}
            except Exception as exc:  # pylint: disable=broad-except
                return {"err": type(exc).__name__}

        st, out = run_in_child(load)
        if out is None:
            raise RuntimeError(f"load died with {st}")
        res.log(f"cut {k} {plan} tail={cut.get('tail')}@{hit} ->", out.get("err") or h(out["got"]))
        if "got" in out:
            got = out["got"]
            if not crashed:
                why = dg.diff(want, got)
            else:
                why = acceptable(got, want, old)
            res.count("loads_accepted")
            if why:
                size = {n: os.path.getsize(os.path.join(d, n)) for n in sorted(os.listdir(d))}
                res.fail(f"loads-as-something-else:{where}", f"{plan} tail {cut.get('tail')}@{hit} files {size}: {why}")
        else:
            res.count("loads_refused")
            if not crashed:
                res.fail(f"complete-save-does-not-load:{where}", out["err"])
        res.state([where, plan, cut.get("tail"), out.get("err"), m["bytes"]])

        # the same files can be saved again
        def again():
            pd = dg.build(spec)
            pd.to_csv(path, *_args(spec, fmt))
            return dg.content(pol.from_csv(path, fmt))

        st, out = run_in_child(again)
        why = dg.diff(want, out) if out is not None else f"status {st}"
        if why:
            res.fail(f"save-after-crash:{where}", why)
        if res.violations:
            return


def shrink(scn):
    if scn["every_byte"]:
        c = json.loads(json.dumps(scn))
        c["every_byte"] = False
        yield c
        for b in range(0, 601):
            c = json.loads(json.dumps(scn))
            c["every_byte"] = False
            c["cuts"] = [{"byte": b, "how": "byte"}]
            yield c
    if scn["old"]:
        c = json.loads(json.dumps(scn))
        c["old"] = None
        yield c
    for spec in smaller_specs(scn["spec"]):
        c = json.loads(json.dumps(scn))
        c["spec"] = spec
        yield c
