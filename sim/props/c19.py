"""C19: every record passes every pipeline stage exactly once."""
import json

from sim import pipes
from sim.core import h
from sim.props import c07

RUNS = {"quick": 900, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run calls a pipeline whose stages record what they are given and return, in half of the runs with a "
        "failing stage; the recorded history has to be exactly the documented flow of the records, and the result "
        "must not depend on the test records. Non-trivial: a diagram was returned, or a fault fired and was "
        "reported. Distinct by digest.")
STATE_MEASURE = "distinct (configuration, flags, recorded history)"
REAL = "PolarPipeline with all components, extensions and quality assurance"
STUB = "weather provider, source of randomness; stages are wrapped by recorders that fail on demand"
ASSUMPTIONS = ["order: handler, imputator, smoother, weigher and filter, expander, weigher and filter, influence "
               "model, weigher and filter, injector, extension, quality assurance"]
SHRINK_LISTS = [("calls",)]


# no component raises these on purpose
CRASHES = (AttributeError, NameError, RecursionError, AssertionError, NotImplementedError)


def gen_plain(rng):
    """Complete logs and components that can deal with them: a result is due"""
    cfg = pipes.gen_config(rng, expander=False)
    layout = cfg["layout"]
    for key in list(cfg):
        if key not in ("layout", "data_handler", "alias", "influence_model", "injector", "extension"):
            cfg[key] = None
    cfg["extension"] = rng.choice([["table", [[6, 10, 14], [60, 120, 180, 240]], ["scaling", 3], ["idw", 2], False],
                                   ["table", None, ["scaling", 3], ["idw", 1], False],
                                   ["curve", "lsq", "linear", False], ["cloud", "uniform", 8, ["scaling", 3], ["idw", 2]]])
    cfg["data_handler"] = ["one", rng.choice(["array", "csv", "frame"])]
    cfg["influence_model"] = ["identity"]
    speed = "SOG" if layout == "ground" else "BSP"
    src = [pipes.gen_source(rng, rng.randint(12, 30), 100 * k, layout == "apparent", False, speed, nasty=False)
           for k in range(rng.randint(1, 2))]
    call = {"train": src, "test": None, "flags": pipes.gen_flags(rng), "faults": [], "seed": rng.randrange(1000), "other_test": None}
    return json.loads(json.dumps({"cfg": cfg, "calls": [call], "plain": True}))


def generate(rng, tier):
    if rng.random() < 0.06:
        return gen_plain(rng)
    cfg = pipes.gen_config(rng)
    calls = []
    for _ in range(rng.randint(1, 2 if tier == "quick" else 4)):
        c = pipes.gen_call(rng, cfg)
        c["faults"] = []
        if rng.random() < 0.5:
            key = rng.choice(sorted(pipes.METHODS))
            kind = rng.choice([k for k in sorted(pipes.EXCEPTIONS) if k != "StopIteration"])
            c["faults"] = [[f"{key}.{rng.choice(pipes.METHODS[key])}", rng.choice([1, 1, 1, 2, 3]),
                            rng.choice(["pre", "post"]), kind]]
        c["seed"] = rng.randrange(1000)
        c["other_test"] = pipes.gen_sources(rng, cfg, 9000) if rng.random() < 0.5 else None
        calls.append(json.loads(json.dumps(c)))
    return {"cfg": cfg, "calls": calls}


def enabled(flags):
    on = {f: True for f in pipes.FLAGS}
    for f, v in flags.items():
        on[{a: k for k, a in pipes.ALIASES.items()}.get(f, f)] = v
    return on


def rows_of(pic):
    """Rows of a picture of a table"""
    return [{k: v[i] for k, v in pic["cols"].items()} for i in range(pic["n"])]


def masked(pic, mask):
    keep = [i for i, m in enumerate(mask) if m]
    if isinstance(pic, list):
        return [pic[i] for i in keep]
    return {"cols": {k: [v[i] for i in keep] for k, v in pic["cols"].items()}, "n": len(keep)}


def joined(pics):
    keys = list(dict.fromkeys(k for p in pics for k in p["cols"]))
    n = sum(p["n"] for p in pics)
    return {"cols": {k: [x for p in pics for x in (p["cols"][k] if k in p["cols"] else [None] * p["n"])]
                     for k in keys}, "n": n if keys else 0}


def numbers(x):
    return [float(v) for v in x]


class Flow:
    """Matches the recorded events with the documented flow"""

    def __init__(self, res, rec, lenient, on):
        self.res, self.rec, self.lenient, self.on = res, rec, lenient, on
        self.left = list(rec.events)
        self.broken = False
        self.at = None  # ("training" or "test", number of the source)
        self.matched = {}  # (phase, number of the source, site) -> event

    def take(self, site, want=None, ident=None):
        for e in self.left:
            if e["site"] != site:
                continue
            if (ident is not None and e["ids"][0] == ident) or (ident is None and self.same(e["args"][0], want)):
                self.left.remove(e)
                self.matched[self.at + (site,)] = e
                return e
        if not self.lenient:
            have = [e["args"][0] for e in self.left if e["site"] == site]
            self.res.fail(f"flow:{site}", f"was not given what it should be: {str(want)[:600]}; "
                                          f"it was given {str(have)[:600]}")
        self.broken = True
        return None

    @staticmethod
    def same(a, b):
        if isinstance(a, dict) and isinstance(b, dict) and "weights" in a and "weights" in b:
            return Flow.same(a["data"], b["data"]) and Flow.same(a["weights"], b["weights"])
        if isinstance(a, list) and isinstance(b, list):
            try:
                return json.dumps(_num(a)) == json.dumps(_num(b))
            except (TypeError, ValueError):
                pass
        return a == b

    def weigh(self, stage, pic):
        """Weigher and filter of a stage: (picture, weights) of what is left; None if unknown"""
        n = len(pic) if isinstance(pic, list) else pic["n"]
        if n == 0:
            return pic, []
        weights = [1.0] * n
        if self.on[f"{stage}_weighing"]:
            e = self.take(f"{stage}_weigher.weigh", pic)
            if e is None:
                return None
            weights = e["out"]  # may be empty if the weigher's attributes are missing
        if self.on[f"{stage}_filtering"]:
            e = self.take(f"{stage}_filter.filter", weights)
            if e is None:
                return None
            return masked(pic, e["out"]), masked(weights, e["out"])
        return pic, weights

    def source(self, src, obj):
        """Follows the records of one source up to the influence model"""
        e = self.take("data_handler.handle", ident=id(obj))
        if e is None:
            return None
        tags = [r[src["cols"].index("tag")] for r in src["rows"]]
        if [float(x) for x in e["out"]["cols"].get("tag", [])] != tags:
            self.res.fail("flow:records", f"handler returned the records {e['out']['cols'].get('tag')} of {tags}")
        e = self.take("imputator.impute", e["out"])
        if e is not None and self.on["smoothing"]:
            e = self.take("smoother.smooth", e["out"])
        out = None if e is None else self.weigh("pre_expander", e["out"])
        e = None if out is None else self.take("expander.expand", out[0])
        out = None if e is None else self.weigh("pre_influence", e["out"])
        return None if out is None else out[0]

    def preprocess(self, sources, inputs, training):
        """Follows the records of all sources; (points, weights) or None"""
        # in a failed run some sources may have got further than others
        phase, tables = "training" if training else "test", []
        for i, (src, obj) in enumerate(zip(sources, inputs)):
            self.at = (phase, i)
            tables.append(self.source(src, obj))
        self.at = (phase, None)
        if None in tables:
            return None
        both = joined(tables)
        if training and self.take("influence_model.fit", both) is None:
            return None
        e = self.take("influence_model.remove_influence", both)
        if e is None:
            return None
        return self.weigh("post", e["out"])


def _num(x):
    if isinstance(x, list):
        return [_num(y) for y in x]
    return float(x) if not isinstance(x, (str, type(None))) or _is_num(x) else x


def _is_num(x):
    try:
        float(x)
        return True
    except (TypeError, ValueError):
        return False


def follow(res, cfg, call, train, test, rec, out, plan):
    on = enabled(call["flags"])
    if call["test"] is None:
        on["testing"] = False
    flow = Flow(res, rec, out[0] == "err", on)
    points = flow.preprocess(call["train"], train, True)
    if points is None and out[0] == "ok":
        return flow
    diagram = None
    if points is not None and points[0]:
        pts, weights = points
        more, extra = [], []
        go = True
        if on["injecting"]:
            e = flow.take("injector.inject", {"data": pts, "weights": weights})
            if e is None:
                go = False
            else:
                more, extra = e["out"]["data"], e["out"]["weights"]
        if go:
            e = flow.take("extension.process", {"data": pts + more, "weights": list(weights) + list(extra)})
            if e is not None:
                diagram = e["out_id"]
    if on["testing"] and (diagram is not None or out[0] == "err"):
        tpts = flow.preprocess(call["test"], test, False)
        if tpts is not None:
            e = next((e for e in flow.left if e["site"] == "quality_assurance.check"), None)
            if e is not None:
                flow.left.remove(e)
                flow.matched["test", None, e["site"]] = e
                if e["ids"][0] != diagram:
                    res.fail("flow:quality-assurance", "another diagram was checked")
                if not Flow.same(e["args"][1], tpts[0] if tpts[0] else e["args"][1]):
                    res.fail("flow:quality-assurance",
                             f"checked with {str(e['args'][1])[:300]}, not {str(tpts[0])[:300]}")
            elif out[0] == "ok":
                res.fail("flow:quality-assurance", "no check")
    if flow.left:
        e = flow.left[0]
        res.fail(f"flow:extra:{e['site']}", f"{len(flow.left)} calls too many: {[x['site'] for x in flow.left]}, "
                                            f"first was given {str(e['args'][0])[:400]}")
    if out[0] == "ok":
        if points is not None and not points[0]:
            res.fail("flow:empty", "a diagram was made of no records")
        if id(out[1].polardiagram) != diagram:
            res.fail("flow:diagram", "the returned diagram is not the one that was made")
        return flow
    # errors have to come from a component
    err = plan.error
    if not plan.fired and isinstance(err, CRASHES):
        res.fail("crash", repr(err)[:300])
    if plan.fired:
        if len(rec.exceptions) != 1 or err is not rec.exceptions[0][1]:
            res.fail("error-lost", f"{rec.exceptions} became {err!r}")
    elif rec.exceptions:
        if err is not rec.exceptions[-1][1]:
            res.fail("error-changed", f"{rec.exceptions} became {err!r}")
    elif points is not None and points[0]:
        res.fail("error-of-the-pipeline", repr(err))
    return flow


def run(cfg, call, train, test, faults, recorder, plan):
    pipeline = pipes.build(cfg, plan, recorder)
    return pipes.call_pipeline(pipeline, train, test, call["flags"], faults, plan, call["seed"])


def execute(scn, ctx):
    res = ctx.res
    cfg = scn["cfg"]
    for k, call in enumerate(scn["calls"]):
        rec, plan = pipes.Recorder(), pipes.FaultPlan()
        train, test = c07.inputs(ctx, cfg, call, k)
        out = run(cfg, call, train, test, call["faults"], rec, plan)
        fired = list(plan.fired)
        for f in fired:
            res.fault(f"fails:{f[0]}")
        if out[0] == "ok" and fired:
            res.fail("error-swallowed", f"{fired} and a result was returned")
        res.log(f"call {k} {call['faults']} {fired} -> {out[0]} {out[1] if out[0] == 'err' else ''} "
                f"{h(json.dumps([[e['site'], e['args'], e['out']] for e in rec.events]).replace(ctx.scratch, ''))}")
        res.state([cfg, call["flags"], [e["site"] for e in rec.events]])
        res.count("events", len(rec.events))
        res.count("result_" + out[0])
        if scn.get("plain"):
            res.count("plain_" + out[0])
            if out[0] != "ok":
                res.fail("no-result", f"complete logs, nothing failed, and {plan.error!r}"[:400])
        follow(res, cfg, call, train, test, rec, out, plan)
        if out[0] == "ok" or fired:
            res.nontrivial = True
        if res.violations:
            res.violations[0] = (res.violations[0][0], f"call {k}: {res.violations[0][1]}")
            return
        if out[0] == "ok":
            # test records influence nothing but the test statistics
            other = dict(call, test=call["other_test"])
            train, test = c07.inputs(ctx, cfg, other, k)
            again = run(cfg, other, train, test, [], None, pipes.FaultPlan())
            res.count("other_test_" + again[0])
            if again[0] == "ok":
                a, b = pipes.canon_output(out[1]), pipes.canon_output(again[1])
                a["training"].pop("quality_assurance"), b["training"].pop("quality_assurance")
                for part in ("diagram", "training"):
                    if a[part] != b[part]:
                        res.fail("test-records-leak", f"call {k}: {part}: {str(a[part])[:400]} and {str(b[part])[:400]}")
                        return


def shrink(scn):
    return iter(()) if scn.get("plain") else c07.shrink(scn)
