"""C07: pipeline runs depend on configuration and arguments only, never on earlier runs."""
import json
import os

from sim import pipes
from sim.core import h, run_in_child

RUNS = {"quick": 220, "thorough": 30000}
LEVEL = "exploration"
RULE = ("A run builds one pipeline and calls it several times with seeded data, flags and "
        "failing components (an exception at a seeded call of any stage or of a callback "
        "inside of it); every call that no fault reached is compared with the same call of a "
        "pipeline freshly built in another process. Non-trivial: a compared call returned a "
        "diagram after at least one earlier call. Distinct by digest.")
STATE_MEASURE = "distinct (configuration, call, outcome)"
REAL = "PolarPipeline with all components, extensions and quality assurance"
STUB = "weather provider, source of randomness, failing callbacks (norms, model functions, fill functions)"
ASSUMPTIONS = ["random draws of a call are the same in both pipelines (seeded per call)"]
SHRINK_LISTS = [("calls",)]


def generate(rng, tier):
    cfg = pipes.gen_config(rng)
    pool = [pipes.gen_call(rng, cfg) for _ in range(rng.randint(1, 3))]
    calls = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        c = dict(rng.choice(pool))
        if rng.random() < 0.5:
            c["flags"] = {**c["flags"], **pipes.gen_flags(rng)}
        c["faults"] = pipes.gen_faults(rng, cfg) if rng.random() < 0.5 else []
        if rng.random() < 0.08:
            c["bad"] = rng.choice(["empty", "nodata"])
        c["seed"] = rng.randrange(5)
        calls.append(json.loads(json.dumps(c)))
    calls[-1]["faults"] = []
    return {"cfg": cfg, "calls": calls}


def inputs(ctx, cfg, call, k):
    train = pipes.make_inputs(call["train"], cfg, ctx.scratch, f"train{k}")
    test = pipes.make_inputs(call["test"], cfg, ctx.scratch, f"test{k}")
    if call.get("bad") == "empty":
        train = []
    elif call.get("bad") == "nodata":
        train = [None]
    return train, test


def canon(out):
    return ["ok", pipes.canon_output(out[1])] if out[0] == "ok" else list(out)


def execute(scn, ctx):
    res = ctx.res
    cfg = scn["cfg"]
    wants = []
    for k, call in enumerate(scn["calls"]):
        def fresh(call=call, k=k):
            plan = pipes.FaultPlan()
            p = pipes.build(cfg, plan)
            out = pipes.call_pipeline(p, *inputs(ctx, cfg, call, k), call["flags"], [], plan, call["seed"])
            return [canon(out), pipes.flags_of(p)]

        st, want = run_in_child(fresh)
        if want is None:
            raise RuntimeError(f"reference run died with {st}")
        wants.append(want)

    plan = pipes.FaultPlan()
    pipeline = pipes.build(cfg, plan)
    for k, call in enumerate(scn["calls"]):
        out = pipes.call_pipeline(pipeline, *inputs(ctx, cfg, call, k), call["flags"],
                                  call["faults"], plan, call["seed"])
        fired = list(plan.fired)
        for f in fired:
            res.fault(f"fails:{f[0]}" if "." in f[0] else f"fails-inside:{f[0]}")
        got = canon(out)
        res.log(f"call {k} faults {call['faults']} fired {fired} -> {got[0]} "
                f"{got[1] if got[0] == 'err' else h(got[1])}")
        res.state([cfg, call["flags"], call["faults"], got])
        want, flags = wants[k]
        if fired:
            if got[0] == "ok":
                res.count("fault_absorbed")
            continue
        res.count("calls_" + got[0])
        if got[0] == "err" and os.environ.get("DBG"):
            res.count(f"err {got[1]} {got[2]}"[:110])
        if got[0] == "ok" and k:
            res.nontrivial = True
        d = pipes.diff_outcome(want, got)
        if d:
            res.fail("result-depends-on-history", f"call {k}: {d}")
            return
        if pipes.flags_of(pipeline) != flags:
            res.fail("flags-depend-on-history", f"call {k}: {flags} became {pipes.flags_of(pipeline)}")
            return


def shrink(scn):
    def copy():
        return json.loads(json.dumps(scn))

    for i, call in enumerate(scn["calls"]):
        for part in ("train", "test"):
            for s in range(len(call[part] or [])):
                if len(call[part]) > 1:
                    c = copy()
                    del c["calls"][i][part][s]
                    yield c
                rows = call[part][s]["rows"]
                if len(rows) > 2:
                    c = copy()
                    c["calls"][i][part][s]["rows"] = rows[: len(rows) // 2]
                    yield c
        if call["test"]:
            c = copy()
            c["calls"][i]["test"] = None
            yield c
        if call["flags"]:
            c = copy()
            c["calls"][i]["flags"] = {}
            yield c
        if call["faults"]:
            c = copy()
            c["calls"][i]["faults"] = []
            yield c
    for key, simple in (("expander", ["lazy"]), ("influence_model", ["identity"]), ("smoother", ["lazy"]),
                        ("pre_expander_weigher", ["one"]), ("pre_influence_weigher", ["one"]),
                        ("post_weigher", ["one"]), ("pre_expander_filter", ["quantile", 0]),
                        ("pre_influence_filter", ["quantile", 0]), ("post_filter", ["quantile", 0])):
        if scn["cfg"].get(key) != simple:
            c = copy()
            c["cfg"][key] = simple
            yield c
