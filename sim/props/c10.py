"""C10: run statistics describe exactly their own run."""
import json
import math

from sim import clock, pipes
from sim.core import h
from sim.props import c07, c19

RUNS = {"quick": 450, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run calls one pipeline several times, some calls with failing components, under a simulated clock that "
        "every stage advances while the wall clock jumps. The statistics of every successful call are recomputed "
        "from what recorders saw at the stages; all earlier outputs are compared with their snapshots after every "
        "call. Non-trivial: at least one call returned statistics. Distinct by digest.")
STATE_MEASURE = "distinct (configuration, flags, statistics)"
REAL = "PolarPipeline with all components, extensions and quality assurance"
STUB = "clocks (time module and clock functions held by hrosailing modules), weather provider, source of randomness"
ASSUMPTIONS = ["the time of a run passes inside of its stages only (between them the simulated clock stands still)"]
SHRINK_LISTS = [("calls",)]


def generate(rng, tier):
    cfg = pipes.gen_config(rng)
    calls = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        c = pipes.gen_call(rng, cfg)
        c["faults"] = pipes.gen_faults(rng, cfg) if rng.random() < 0.3 else []
        c["seed"] = rng.randrange(1000)
        c["durations"] = [round(rng.choice([0, 0.001, 1, rng.uniform(0, 5), 3600]), 3) for _ in range(rng.randint(1, 9))]
        c["jumps"] = [[rng.randrange(40), rng.choice([-3600.0, -1.0, 86400.0, 5.5, -1e6, 1e6])]
                      for _ in range(rng.randint(0, 3))]
        c["scribble"] = rng.random() < 0.4
        calls.append(json.loads(json.dumps(c)))
    return {"cfg": cfg, "calls": calls}


def near(a, b):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def size(pic):
    return {"n_rows": pic["n"], "n_cols": len(pic["cols"])}


def weight_stats(e):
    w = [float(x) for x in e["out"]]
    if not w or any(math.isnan(x) for x in w):
        return None
    return {"average_weight": sum(w) / len(w), "minimal_weight": min(w), "maximal_weight": max(w)}


def filter_stats(e):
    keep = sum(1 for x in e["out"] if x)
    return {"n_filtered_points": len(e["out"]) - keep, "n_rows": keep}


STAGES = {  # attribute of Statistics -> (site, what the statistics have to contain)
    "data_handler": ("data_handler.handle", lambda e: size(e["out"])),
    "imputator": ("imputator.impute", lambda e: {
        **size(e["out"]), "n_removed_rows": e["args"][0]["n"] - e["out"]["n"],
        "n_removed_cols": len(e["args"][0]["cols"]) - len(e["out"]["cols"])}),
    "smoother": ("smoother.smooth", lambda e: {}),
    "pre_expanding_weigher": ("pre_expander_weigher.weigh", weight_stats),
    "pre_expanding_filter": ("pre_expander_filter.filter", filter_stats),
    "expander": ("expander.expand", lambda e: size(e["out"])),
    "pre_influence_weigher": ("pre_influence_weigher.weigh", weight_stats),
    "pre_influence_filter": ("pre_influence_filter.filter", filter_stats),
    "post_weigher": ("post_weigher.weigh", weight_stats),
    "post_filter": ("post_filter.filter", filter_stats),
}


def is_one(cfg, key):
    return cfg.get(key, None) is not None and cfg[key][0] == "one"


def check_stats(res, label, got, flow, phase, n):
    """got: canonical statistics of a phase; flow: events by phase, source and site"""
    def one(name, i, have):
        site, rule = STAGES[name]
        e = flow.matched.get((phase, i, site))
        if e is None:
            # the stage was not used; it may describe weights of 1
            if have and not (name.endswith("weigher") and near(have.get("average_weight", 1), 1)):
                res.fail(f"statistics:{name}", f"{label} {phase} source {i}: not used but reports {have}")
            return
        want = rule(e)
        if want is None or (not have and name.endswith("weigher") and all(near(x, 1) for x in e["out"])):
            return  # no weights, or all of them are 1
        for key, v in want.items():
            if key not in have or not near(have[key], v):
                res.fail(f"statistics:{name}", f"{label} {phase} source {i}: {key} should be {v}: {str(have)[:300]}")
                return
        if name.endswith("weigher") and (len(have["quantiles"]) != 10 or sum(map(float, have["quantiles"])) < 99.8):
            res.fail(f"statistics:{name}", f"{label} {phase} source {i}: quantiles {have['quantiles']}")

    for name in STAGES:
        have = got[name]
        if name.startswith("post"):
            one(name, None, have)
            continue
        if not have:
            # a stage that is switched off
            have = {str(i): {} for i in range(n)}
        if sorted(have) != sorted(str(i) for i in range(n)):
            res.fail(f"statistics:{name}", f"{label} {phase}: {n} sources but {sorted(have)}")
            continue
        for i in range(n):
            one(name, i, have[str(i)])
    fit = flow.matched.get((phase, None, "influence_model.fit"))
    if fit is not None and fit["stats"]:
        for key, v in fit["stats"].items():
            if not near(got["influence_model"].get(key), v):
                res.fail("statistics:influence_model", f"{label} {phase}: {got['influence_model']}, fitted {fit['stats']}")


def check_quality(res, label, got, out, flow):
    e = next((e for k, e in flow.matched.items() if k[2] == "quality_assurance.check"), None)
    if e is None:
        if set(got) - {"execution time"}:
            res.fail("statistics:quality_assurance", f"{label}: not tested but reports {got}")
        return
    pts = e["args"][1]
    diffs = [abs(float(p[2]) - out.polardiagram(float(p[0]), float(p[1]))) for p in pts]
    if not diffs or any(math.isnan(d) for d in diffs):
        return
    want = {"max_error": max(diffs), "min_error": min(diffs), "average_error": sum(diffs) / len(diffs),
            "average_quadratic_error": sum(d * d for d in diffs) / len(diffs)}
    if "test_covering" in got:
        cases = {}
        for p in pts:
            cases.setdefault((round(float(p[0])), round(float(p[1]))), []).append(float(p[2]))
        want["test_covering"] = len(cases)
        want["average_local_test_data_difference"] = sum(max(v) - min(v) for v in cases.values()) / len(cases)
        try:
            calm = [abs(float(out.polardiagram(20 * i / 19, wa))) for i in range(20) for wa in (0, 360)]
        except (ValueError, ArithmeticError):
            calm = [math.nan]
        if not any(math.isnan(v) for v in calm):
            want.update(max_zero_val=max(calm), min_zero_val=min(calm), average_zero_val=sum(calm) / len(calm),
                        average_quadratic_zero_val=sum(v * v for v in calm) / len(calm))
            res.count("quality of zero values")
    for key, v in want.items():
        if key not in got or abs(float(got[key]) - v) > 1e-6 * max(1, abs(v)):
            res.fail("statistics:quality_assurance", f"{label}: {key} should be {v}: {got}")
            return


def execute(scn, ctx):
    res = ctx.res
    cfg = scn["cfg"]
    sim = clock.SimClock()
    rec, plan = pipes.Recorder(), pipes.FaultPlan()
    pipeline = pipes.build(cfg, plan, rec)
    earlier = []
    for k, call in enumerate(scn["calls"]):
        rec.events, rec.exceptions = [], []
        ticks = {"n": 0, "sum": 0.0}

        def tick(site, call=call, ticks=ticks):
            n = ticks["n"]
            ticks["n"] += 1
            d = call["durations"][n % len(call["durations"])]
            ticks["sum"] += d
            sim.advance(d)
            for at, by in call["jumps"]:
                if at == n:
                    sim.jump(by)
                    res.fault("clock-back" if by < 0 else "clock-forward")

        rec.clock = tick
        train, test = c07.inputs(ctx, cfg, call, k)
        with sim:
            out = pipes.call_pipeline(pipeline, train, test, call["flags"], call["faults"], plan, call["seed"])
        for f in plan.fired:
            res.fault(f"fails:{f[0]}" if "." in f[0] else f"fails-inside:{f[0]}")
        res.sim_time += ticks["sum"]
        label = f"call {k}"
        res.log(f"{label} {call['faults']} {call['jumps']} -> {out[0]}")
        for j, (old, pic) in enumerate(earlier):
            if pipes.snap_output(old) != pic:
                res.fail("earlier-output-changed", f"{label} changed the output of call {j}: "
                                                   f"{first_difference(pic, pipes.snap_output(old))}")
                return
        if out[0] != "ok":
            res.count("failed_calls")
            continue
        res.nontrivial = True
        out = out[1]
        pic = pipes.snap_output(out)
        res.state([cfg, call["flags"], h(json.dumps(pic))])
        res.log(h(json.dumps(pic)))
        if '"edited"' in json.dumps([pic["training"], pic["test"]]):
            res.fail("statistics:shared", f"{label} reports what the caller wrote into the statistics of an earlier call")
            return
        # what C19 decides is only followed here
        silent = type(res)()
        flow = c19.follow(silent, cfg, call, train, test, rec, ("ok", out), plan)
        if not silent.violations:
            training, tests = pic["training"], pic["test"]
            check_stats(res, label, training, flow, "training", len(call["train"]))
            if flow.on["testing"]:
                check_stats(res, label, tests, flow, "test", len(call["test"]))
            elif any(tests.values()):
                res.fail("statistics:test", f"{label}: nothing was tested but {tests}")
            inj = next((e for q, e in flow.matched.items() if q[2] == "injector.inject"), None)
            have = training["injector"].get("n_injected", 0)
            if have != (len(inj["out"]["data"]) if inj else 0):
                res.fail("statistics:injector", f"{label}: {training['injector']}")
            check_quality(res, label, training["quality_assurance"], out, flow)
            res.count("statistics_checked")
        got = float(training_time(out))
        if abs(got - ticks["sum"]) > 1e-5 + 1e-9 * ticks["sum"]:
            res.fail("execution-time", f"{label} took {ticks['sum']} s, reported {got} s, clock jumps {call['jumps']}")
        if res.violations:
            return
        if call.get("scribble"):  # the caller may do what he wants with his statistics
            res.fault("caller edits statistics")
            for part in (out.training_statistics, out.test_statistics):
                for name in part._fields:
                    scribble(getattr(part, name))
            pic = pipes.snap_output(out)
        earlier.append((out, pic))


def scribble(stats):
    for v in stats.values():
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, list) and v:
            v[0] = -99
    stats["edited"] = -99


def training_time(out):
    return out.training_statistics.quality_assurance["execution time"]


def first_difference(a, b):
    for part in a:
        if a[part] != b[part]:
            if isinstance(a[part], dict):
                for key in a[part]:
                    if a[part][key] != b[part].get(key):
                        return f"{part}.{key}: {str(a[part][key])[:300]} became {str(b[part].get(key))[:300]}"
            return f"{part}: {str(a[part])[:300]} became {str(b[part])[:300]}"
    return None


shrink = c07.shrink
