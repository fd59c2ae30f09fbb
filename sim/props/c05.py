"""C05: weather files preserve the weather model, also under crashes and disk faults."""
import errno
import json
import os

from sim import weather as wx
from sim.core import h, record_exception, run_in_child
from sim.props.c02 import gen_plan, resolve

RUNS = {"quick": 350, "thorough": 60000}
LEVEL = "fault_enumeration"
RULE = ("A run saves and loads weather models with seeded disk faults, process deaths at "
        "seeded bytes (with lost or zeroed ends) and restarts; non-trivial: a saved file "
        "was loaded or a fault fired. Distinct by digest.")
STATE_MEASURE = "distinct (weather content, fault, crash place, outcome)"
REAL = "GriddedWeatherModel.to_file/from_file/get_weather, json, Python text I/O"
STUB = "disk: system calls below the scratch directory pass a fault injecting shim"
ASSUMPTIONS = ["a crash leaves a prefix of the file, possibly followed by zero bytes"]


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        spec = wx.gen_spec(rng, nan=rng.random() < 0.2)
        path = rng.randrange(2)
        if ops and rng.random() < 0.4:  # an update of an earlier forecast
            path, spec = ops[-1]["path"], wx.older(ops[-1]["spec"])
        op = {"path": path, "spec": spec, "pathlib": rng.random() < 0.3,
              "queries": [wx.gen_point(rng, spec) for _ in range(rng.randint(0, 4))]}
        if rng.random() < 0.12:  # axes in the order they were given
            for axis in rng.sample(["times", "lats", "lons"], rng.randint(1, 3)):
                rng.shuffle(spec[axis])
        if wx.times(spec) != sorted(wx.times(spec)) or any(spec[a] != sorted(spec[a]) for a in ("lats", "lons")):
            op["queries"] = []
        r = rng.random()
        if r < 0.35:
            op["op"] = "save"
            if rng.random() < 0.3:
                op["plan"] = {"rules": [[rng.choice(["write", "read"]), rng.random(),
                                         rng.choice(["eintr", "short"]), 5]]}
        elif r < 0.6:
            op["op"] = "failing-save"
            op["plan"] = gen_plan(rng)
        elif r < 0.9:
            op["op"] = "crash"
            op["cuts"] = []
            for _ in range(rng.randint(2, 10)):
                c = {"at": rng.choice([rng.random(), rng.random(), 0.0, 0.999, 1.0])}
                if rng.random() < 0.4:
                    c["tail"] = [rng.choice(["lost", "zeros", "grown"]), rng.choice([1, 2, 9, 100])]
                op["cuts"].append(c)
        else:
            op["op"] = "reload"
        ops.append(op)
    return {"ops": ops}


def execute(scn, ctx):
    from hrosailing.models import GriddedWeatherModel as G

    res = ctx.res
    files = {}  # path -> the models that a file there may hold; one after a good save

    def name(op):
        p = os.path.join(ctx.scratch, f"weather{op['path']}.v1.json")
        if op.get("pathlib"):
            import pathlib

            return pathlib.Path(p)
        return p

    def check_load(op, want_spec, why):
        def body():
            r = type(res)()
            try:
                m = G.from_file(name(op))
                d = wx.diff(wx.expected(want_spec), wx.content(m))
                if d:
                    r.fail(f"{why}", d)
                for q in op["queries"]:
                    ref = wx.lookup(want_spec, wx.point_of(q))
                    try:
                        got = m.get_weather(wx.point_of(q))
                    except Exception as exc:  # pylint: disable=broad-except
                        if ref is not None:
                            r.fail(f"{why}-query", f"{q}: {exc!r}")
                        continue
                    if ref is None:
                        r.fail(f"{why}-query", f"{q} is outside of the grid")
                    else:
                        d = wx.same_weather(got, ref)
                        if d:
                            r.fail(f"{why}-query", f"{q}: {d}")
            except BaseException as exc:  # pylint: disable=broad-except
                if not record_exception(r, exc):
                    raise
            return r.violations

        st, out = run_in_child(body)  # a process of its own
        if out is None:
            raise RuntimeError(f"load died with {st}")
        res.violations.extend(tuple(v) for v in out)
        res.count("loads")
        res.state(h(want_spec))
        res.nontrivial = True

    for k, op in enumerate(scn["ops"]):
        if op["op"] == "reload":
            held = files.get(op["path"], [])
            if len(held) == 1:
                check_load({**op, "queries": []}, held[0], "later-load")
            continue
        spec = op["spec"]
        model = ctx.must("construct", wx.build, spec)
        if op["op"] == "save":
            rules = [[o, 1, a, n] for o, _, a, n in op.get("plan", {}).get("rules", [])]
            ctx.disk.begin({"rules": rules})
            ctx.must("save", model.to_file, name(op))
            ctx.disk.end()
            for f in ctx.disk.fired():
                res.fault(f"{f[0]}-{f[1]}")
            files[op["path"]] = [spec]
            check_load(op, spec, "round-trip")
        else:
            # size and number of operations of an undisturbed save
            def dry():
                ctx.disk.begin()
                model.to_file(os.path.join(ctx.scratch, "dry.json"))
                ctx.disk.end()
                return {"n": {o: ctx.disk.count(o) for o in ("open_w", "write", "close")},
                        "bytes": ctx.disk.written()}

            _, m = run_in_child(dry)
            if m is None:
                raise RuntimeError("dry run failed")
            if op["op"] == "failing-save":
                plan = resolve(op["plan"], m)
                ctx.disk.begin(plan)
                err = None
                try:
                    model.to_file(name(op))
                except Exception as exc:  # pylint: disable=broad-except
                    err = (type(exc).__name__, isinstance(exc, OSError))
                ctx.disk.end()
                fds, fired = ctx.disk.open_fds(), ctx.disk.fired()
                full = any(o == "write" and r == -errno.ENOSPC for o, _, r in ctx.disk.log())
                for f in fired:
                    res.fault(f"{f[0]}-{f[1]}")
                if full and "space" in plan:
                    res.fault("disk-full")
                hard = full or any(f[1] == "err" for f in fired)
                res.log(f"save {k} {plan} fired {fired} full {full} -> {err}")
                res.state([plan, fired, full, err])
                res.nontrivial |= bool(fired) or full
                if fds:
                    res.fail("handle-left-open", f"{fired}")
                if err and not err[1]:
                    res.fail("wrong-error-kind", f"{err} under {fired}")
                elif err and not hard:
                    res.fail("transparent-fault-save-fails", f"{err} under {fired}")
                elif not err:
                    files[op["path"]] = [spec]
                    check_load(op, spec, "success-reported-but-incomplete")
                if err:
                    files[op["path"]] = [*files.get(op["path"], []), spec]
                    _outcome(res, G, name(op), files[op["path"]], "failed-save")
                    files[op["path"]].append(None)  # may be damaged
                d = wx.diff(wx.expected(spec), wx.content(model))
                if d:
                    res.fail("model-changed", d)
            else:
                for cut in op["cuts"]:
                    at = int(cut["at"] * m["bytes"])

                    def body(at=at):
                        ctx.disk.begin({"crash_at": at})
                        model.to_file(name(op))
                        ctx.disk.end()
                        return "finished"

                    st, out = run_in_child(body)
                    if st == 77:
                        res.fault("crash-byte")
                        if cut.get("tail") and os.path.exists(name(op)):
                            kind, n = cut["tail"]
                            data = open(name(op), "rb").read()
                            data = {"lost": data[: max(0, len(data) - n)],
                                    "zeros": data[: max(0, len(data) - n)] + b"\0" * min(n, len(data)),
                                    "grown": data + b"\0" * n}[kind]
                            open(name(op), "wb").write(data)
                            res.fault(f"tail-{kind}")
                        files[op["path"]] = [*files.get(op["path"], []), spec]
                        _outcome(res, G, name(op), files[op["path"]],
                                 f"crash at {at} {cut.get('tail')}")
                        files[op["path"]].append(None)
                    elif out is None:
                        res.fail("raised:save", f"status {st}")
                    res.state(["crash", h(spec), at, cut.get("tail")])
                ctx.must("save-after-crash", model.to_file, name(op))
                files[op["path"]] = [spec]
                check_load(op, spec, "save-after-crash")
        if res.violations:
            return


def _outcome(res, G, path, allowed, what):
    """After a failed or interrupted save: the old, the new model, or an error."""

    def body():
        try:
            return {"got": wx.content(G.from_file(path))}
        except Exception as exc:  # pylint: disable=broad-except
            return {"err": type(exc).__name__}

    st, out = run_in_child(body)
    if out is None:
        raise RuntimeError(f"load died with {st}")
    res.log(what, "->", out.get("err", "loads"))
    res.count("refused" if "err" in out else "accepted")
    if "got" in out:
        ds = [wx.diff(wx.expected(a), out["got"]) for a in allowed if a]
        if all(ds):
            res.fail("loads-as-another-model", f"{what}: {ds[-1]}")


def shrink(scn):
    for i, op in enumerate(scn["ops"]):
        for key in ("cuts", "queries"):
            for j in range(len(op.get(key, []))):
                c = json.loads(json.dumps(scn))
                del c["ops"][i][key][j]
                yield c
