"""C02: a save that meets disk faults reports them and harms nothing else."""
import errno
import gc
import os
import re
import sys

from sim import diagrams as dg
from sim.core import h, run_in_child, said
from sim.props.c01 import smaller_specs

RUNS = {"quick": 700, "thorough": 80000}
LEVEL = "fault_enumeration"
RULE = ("A run saves several diagrams while the simulated disk fails at seeded places "
        "(open, write, close, full disk, short and interrupted transfers), checks the "
        "outcome after every save and retries; non-trivial: at least one fault fired. "
        "Distinct by digest of the whole run.")
STATE_MEASURE = "distinct (diagram kind, format, fired fault, position in the save, outcome)"
REAL = "to_csv/from_csv of all diagram kinds, csv, Python buffered text I/O"
STUB = "disk: system calls below the scratch directory pass a fault injecting shim"
ASSUMPTIONS = ["close reporting an error has released the descriptor (Linux semantics)"]

ERRNOS = {"open_w": [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO, errno.EROFS, errno.ENOENT, errno.ESTALE,
                     errno.EPERM, errno.EBUSY],
          "write": [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG],
          "close": [errno.EIO, errno.EDQUOT, errno.ENOSPC],
          "fsync": [errno.EIO], "rename": [errno.EIO], "trunc": [errno.EIO]}


def gen_plan(rng):
    plan = {"rules": [], "space_frac": None}
    r = rng.random()
    if r < 0.35:
        plan["space_frac"] = rng.choice([0.0, rng.random(), rng.random(), 1.0 - 0.02 * rng.random(), 1.0])
    else:
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = rng.choice(["open_w", "write", "write", "close", "close", "fsync", "rename", "trunc"])
            act = "err"
            arg = rng.choice(ERRNOS[op])
            if op == "write" and rng.random() < 0.35:
                act, arg = rng.choice([("short", 1), ("short", 13), ("short", 1000), ("eintr", 0)])
            plan["rules"].append([op, rng.random(), act, arg])
    return plan


def big(rng):
    """Tables and clouds larger than the write buffer."""
    n = rng.randint(60, 300)
    if rng.random() < 0.5:
        return {"kind": "cloud", "pts": [[rng.uniform(1, 40), rng.uniform(0, 360), rng.uniform(0, 20)]
                                         for _ in range(n * 2)]}
    ws = [1.0 + i * 0.77 for i in range(rng.randint(10, 30))]
    wa = [i * 360 / n for i in range(n)]
    return {"kind": "table", "ws": ws, "wa": wa, "bsps": [[rng.uniform(0, 20) for _ in ws] for _ in wa]}


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
        spec = big(rng) if rng.random() < 0.25 else dg.gen_any(rng)
        fmt = "hro"
        if spec["kind"] == "table":
            fmt = rng.choice(["hro", "hro", "orc", "opencpn", "array"])
        ops.append({"spec": spec, "fmt": fmt, "path": rng.randrange(2),
                    "plan": gen_plan(rng), "retries": [gen_plan(rng) for _ in range(rng.choice([0, 0, 1, 2]))]})
    others = [dg.gen_any(rng) for _ in range(rng.randint(0, 2))]
    names = [n for n in ("{}.tmp", "{}.csv.tmp", ".{}.csv.tmp", "{}.csv~", "{}.bak", "{}.csv.bak", "{}.new", "{}", "tmp")
             if rng.random() < 0.3]
    return {"ops": ops, "others": others, "names": names}


SHRINK_LISTS = [("ops",), ("others",), ("names",)]


def _args(spec, fmt):
    return (fmt,) if spec["kind"] == "table" and fmt != "hro" else ()


def helper_names(spec, fmt, d):
    """Names of files besides its own that a save uses next to them ("{}" for the name of the
    diagram), if they are the same every time: another file may have that name."""
    names = []

    def hook(event, args):
        if event in ("open", "os.rename", "os.remove", "os.link", "os.symlink", "os.truncate"):
            for x in args[:2]:
                if isinstance(x, (str, bytes)):
                    x = os.path.abspath(os.fsdecode(x))
                    if os.path.dirname(x) == d:
                        names.append(os.path.basename(x))

    sys.addaudithook(hook)
    found = []
    for stem in ("dry", "wet", "boat0"):
        names.clear()
        dg.build(spec).to_csv(os.path.join(d, stem + ".csv"), *_args(spec, fmt))
        found.append({n.replace(stem, "{}") for n in names})
    return sorted(n for n in set.intersection(*found) if not re.fullmatch(r"\{\}(_sail_\d+)?\.csv", n))


def measure(ctx, spec, fmt, helpers=False):
    """Operation counts and size of an undisturbed save (in a process of its own)."""

    def body():
        d = os.path.join(ctx.scratch, "dry")
        os.makedirs(d, exist_ok=True)
        if helpers:
            return {"helpers": helper_names(spec, fmt, d)}
        pd = dg.build(spec)
        ctx.disk.begin()
        try:
            pd.to_csv(os.path.join(d, "dry.csv"), *_args(spec, fmt))
        except Exception:  # pylint: disable=broad-except
            pass
        ctx.disk.end()
        return {"n": {op: ctx.disk.count(op) for op in
                      ("open_w", "write", "close", "fsync", "rename", "trunc")},
                "bytes": ctx.disk.written(), "total": ctx.disk.total()}

    _, out = run_in_child(body)
    return out


def resolve(plan, m):
    rules = []
    for op, frac, act, arg in plan["rules"]:
        n = m["n"].get(op, 0)
        if n:
            rules.append([op, 1 + min(n - 1, int(frac * n)), act, arg])
    out = {"rules": rules}
    if plan.get("space_frac") is not None:
        out["space"] = int(plan["space_frac"] * m["bytes"])
    return out


def execute(scn, ctx):
    import hrosailing.polardiagram as pol

    res = ctx.res
    cwd = ctx.scratch
    other = {}
    for i, spec in enumerate(scn["others"]):
        path = os.path.join(cwd, f"other{i}.csv")
        ctx.must("save-other", dg.build(spec).to_csv, path)
    names = [n.replace("{}", f"boat{i}") for n in scn.get("names", ()) for i in (0, 1)]
    for k in {(op["spec"]["kind"], op["fmt"]): k for k, op in enumerate(scn["ops"])}.values():
        m = measure(ctx, scn["ops"][k]["spec"], scn["ops"][k]["fmt"], helpers=True)
        names += [n.replace("{}", f"boat{i}") for n in (m or {"helpers": []})["helpers"] for i in (0, 1)]
    for name in names:
        with open(os.path.join(cwd, name), "w", encoding="utf-8") as f:
            f.write("somebody else's file\n" * 3)
    for name in sorted(os.listdir(cwd)):
        if os.path.isfile(os.path.join(cwd, name)):
            other[name] = open(os.path.join(cwd, name), "rb").read()
    for k, op in enumerate(scn["ops"]):
        spec, fmt = op["spec"], op["fmt"]
        want = dg.expected(spec)
        kind = want["kind"]
        m = measure(ctx, spec, fmt)
        if m is None:
            raise RuntimeError("dry run failed")
        pd = dg.build(spec)
        path = os.path.join(cwd, f"boat{op['path']}.csv")
        for attempt, plan in enumerate([op["plan"]] + op["retries"] + [None]):
            rplan = resolve(plan, m) if plan else {}
            ctx.disk.begin(rplan)
            err = None
            try:
                pd.to_csv(path, *_args(spec, fmt))
            except Exception as exc:  # pylint: disable=broad-except
                err = (type(exc).__name__, isinstance(exc, OSError), said(exc))
                exc = None
            ctx.disk.end()
            fds = ctx.disk.open_fds()
            fired = ctx.disk.fired()
            full = any(op_ == "write" and r == -errno.ENOSPC for op_, _, r in ctx.disk.log())
            if full and rplan.get("space") is not None:
                res.fault("disk-full")
            for f in fired:
                res.fault(f"{f[0]}-{f[1]}-{errno.errorcode.get(f[2], f[2]) if f[1] == 'err' else ''}".rstrip("-"))
            disturbed = bool(fired) or full
            hard = full or any(f[1] == "err" for f in fired)
            res.log(f"save {k}.{attempt} {kind} {fmt} plan={rplan} fired={fired} full={full} -> {err and err[0]}")
            where = f"{kind}:{fmt}"
            if disturbed:
                res.nontrivial = True
                res.state([kind, fmt, fired, full, err and err[0], m["bytes"] // 512])
            if fds:
                res.fail(f"handle-left-open:{where}", f"{fds} descriptors after {err}")
            gc.collect()
            if err is None:
                try:
                    got = dg.content(pol.from_csv(path, fmt))
                    d = dg.diff(want, got)
                except Exception as exc:  # pylint: disable=broad-except
                    d = f"loading raises {exc!r}"
                if d:
                    res.fail(f"success-reported-but-incomplete:{where}",
                             f"plan {rplan}, fired {fired}, full {full}: {d}")
            elif not err[1]:
                res.fail(f"wrong-error-kind:{where}", f"{err} under {fired}")
            elif not hard:
                res.fail(f"{'transparent-fault' if disturbed else 'healthy-disk'}-save-fails:{where}",
                         f"{err} under {fired}")
            d = dg.diff(want, dg.content(pd))
            if d:
                res.fail(f"diagram-changed:{where}", d)
            for name, data in other.items():
                try:
                    now = open(os.path.join(cwd, name), "rb").read()
                except OSError as exc:
                    now = repr(exc)
                if now != data:
                    res.fail(f"other-file-changed:{where}", name)
            if res.violations:
                return
            res.count("saves")
            res.count("saves_failed" if err else "saves_succeeded")
        res.count("retried_to_success")
        res.state(h(want))


def shrink(scn):
    import json

    for i, op in enumerate(scn["ops"]):
        for spec in smaller_specs(op["spec"]):
            c = json.loads(json.dumps(scn))
            c["ops"][i]["spec"] = spec
            yield c
        for j in range(len(op["retries"])):
            c = json.loads(json.dumps(scn))
            del c["ops"][i]["retries"][j]
            yield c
        for j in range(len(op["plan"]["rules"])):
            c = json.loads(json.dumps(scn))
            del c["ops"][i]["plan"]["rules"][j]
            yield c
