"""C09: inputs of the caller are never modified, and nothing is shared with them."""
import json
import os
import sys

from sim import ops, pipes
from sim.core import HRO_PREFIX, h, said, SimStop

RUNS = {"quick": 900, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run performs one to three operations of the library on seeded inputs, undisturbed, with failing callbacks, "
        "or interrupted at a seeded line; the inputs are compared with their pictures afterwards. For undisturbed "
        "operations the inputs are then overwritten (the result must stay), everything the result hands out is "
        "overwritten (the result must stay) and the result is overwritten (inputs and a repetition must stay). "
        "Non-trivial: an operation returned or was hit by a fault. Distinct by digest.")
STATE_MEASURE = "distinct (operation, inputs, way of ending)"
REAL = "polar diagrams, weather models, data tables, globe models, routing, all processing components, pipelines, plots"
STUB = "weather providers, influence model of routing, failing callbacks, interrupts (KeyboardInterrupt at a seeded line)"
ASSUMPTIONS = ["the diagrams inside a multi-sail diagram, the columns of a data table and the arrays in weighted points "
               "are live by design", "components may hand their (unchanged) input on as their result"]
SHRINK_LISTS = [("steps",)]

WEIGHT = {"component": 8, "pipeline": 2, "course": 4, "data": 3, "plot": 1, "table": 2}
# results that may be (made of) what was given
PASSED_ON = {"component", "weighted"}


def generate(rng, tier):
    names = [n for n in sorted(ops.OPS) for _ in range(WEIGHT.get(n, 2))]
    steps = []
    for _ in range(rng.randint(1, 3)):
        name = rng.choice(names)
        s = {"op": name, "spec": ops.OPS[name].gen(rng), "interrupt": None}
        if rng.random() < 0.3 and name != "plot" and not is_odr(s["spec"]):
            s["interrupt"] = rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 400),
                                         rng.randint(1, 4000)])
        steps.append(json.loads(json.dumps(s)))
    return {"steps": steps}


def is_odr(spec):
    """ODRPACK cannot take exceptions in its callbacks"""
    return "odr" in json.dumps(spec)


class Interrupt:
    """Raises KeyboardInterrupt at the n-th executed line of the library"""

    TOOL = 4

    def __init__(self, n):
        self.n = n
        self.hit = None

    def __enter__(self):
        if self.n is None:
            return self
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "hrosim-interrupt")

        def line(code, no):
            if not code.co_filename.startswith(HRO_PREFIX):
                return mon.DISABLE
            self.n -= 1
            if self.n == 0:
                self.hit = f"{os.path.basename(code.co_filename)}:{code.co_name}"
                raise KeyboardInterrupt("simulated")
            return None

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        if sys.monitoring.get_tool(self.TOOL):
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
        return False


HIDDEN = {"component", "pipeline", "plan", "s", "scratch"}


def shown(i, o, also=()):
    return {k: ops.picture(v) for k, v in i.items() if k not in HIDDEN and k not in o.keep and k not in also}


def first_difference(a, b):
    for k in a:
        if a[k] != b.get(k):
            return f"{k}: {str(a[k])[:300]} became {str(b.get(k))[:300]}"
    return "something"


def label_of(step):
    s = step["spec"]
    out = step["op"]
    if out == "component":
        out += f":{s['kind']}:{s['spec'][0] if isinstance(s['spec'][0], str) else s['spec'][0][0] if isinstance(s['spec'][0], list) else ''}"
    elif "what" in s:
        out += f":{s['what']}"
    return out


def execute(scn, ctx):
    res = ctx.res
    for k, step in enumerate(scn["steps"]):
        o = ops.OPS[step["op"]]
        name = label_of(step)

        def prepare(n):
            i = o.prepare(json.loads(json.dumps(step["spec"])))
            if "scratch" in i or step["op"] == "component":
                i["scratch"] = os.path.join(ctx.scratch, f"s{k}-{n}")
                os.makedirs(i["scratch"], exist_ok=True)
            return i

        def perform(i, interrupt=None):
            pipes.seed_random(1)
            with Interrupt(interrupt) as irq:
                try:
                    return ["ok", o.call(i)], irq
                except SimStop:
                    raise
                except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
                    return ["err", type(exc).__name__, said(exc)[:100]], irq

        i = prepare(0)
        if name == "course:convex" and i["im"] is not None:
            i["influence_data"] = {"temp": [4.0] * 1}
        before = shown(i, o)
        if name == "course:convex":
            before.pop("influence_data")
        out, irq = perform(i, step["interrupt"])
        fired = list(i["plan"].fired) if i.get("plan") else []
        for f in fired:
            res.fault(f"fails:{f[0]}")
        if irq.hit:
            res.fault("interrupt")
        after = shown(i, o)
        if name == "course:convex":
            after.pop("influence_data")
        res.state([name, h(json.dumps(step["spec"], sort_keys=True)), out[0], irq.hit])
        res.log(f"{name} interrupt {irq.hit} fired {fired} -> {out[0]} {out[1] if out[0] == 'err' else ''}")
        res.count(f"{out[0]}:{step['op']}")
        if out[0] == "err" and os.environ.get("DBG"):
            res.count(f"err {name} {out[1]} {out[2]}"[:120])
        if after != before:
            res.fail(f"input-changed:{name}", f"step {k} ({out[0]}): {first_difference(before, after)}")
            return
        if out[0] == "ok" or irq.hit or fired:
            res.nontrivial = True
        if out[0] != "ok" or irq.hit or fired:
            continue
        result = out[1]
        pic = ops.picture(result)
        # what the result hands out is the caller's
        for vname, view in (o.views(result) if o.views else {}).items():
            try:
                v = view()
            except Exception:  # pylint: disable=broad-except
                continue
            first = ops.picture(v)
            ops.scramble(v)
            if ops.picture(result) != pic:
                res.fail(f"view-shared:{name}:{vname}", f"step {k}: overwriting it changed "
                                                        f"{str(pic)[:200]} to {str(ops.picture(result))[:200]}")
                return
            again = ops.picture(view())
            if not pipes.same(again, first):
                res.fail(f"view-shared:{name}:{vname}", f"step {k}: {str(first)[:200]} became {str(again)[:200]}")
                return
            res.count("views")
        if step["op"] not in PASSED_ON:
            # the inputs are the caller's
            ops.scramble({q: v for q, v in i.items() if q not in HIDDEN and q not in o.keep and q not in ("im", "wm")})
            if ops.picture(result) != pic:
                res.fail(f"input-shared:{name}", f"step {k}: overwriting the inputs changed {str(pic)[:300]} to "
                                                 f"{str(ops.picture(result))[:300]}")
                return
        # the result is the caller's
        j = prepare(1)
        base = shown(j, o, ("influence_data",))
        second, _ = perform(j)
        if second[0] != "ok" or not pipes.same(ops.picture(second[1]), pic):
            res.fail(f"not-repeatable:{name}", f"step {k}: {str(pic)[:300]} became {str(second)[:300]}")
            return
        if step["op"] not in PASSED_ON and not o.keep:
            ops.scramble(second[1])
            now = shown(j, o, ("influence_data",))
            if now != base:
                res.fail(f"result-shared:{name}", f"step {k}: overwriting the result changed {first_difference(base, now)}")
                return
        else:
            ops.scramble(second[1])
        last = prepare(2)
        if "plan" in j:  # the same component or pipeline again
            j["plan"].arm([])
            for q in ("component", "pipeline"):
                if q in j:
                    last[q] = j[q]
            if q == "pipeline" and q in j:
                last["plan"] = j["plan"]
        third, _ = perform(last)
        if third[0] != "ok" or not pipes.same(ops.picture(third[1]), pic):
            res.fail(f"result-shared:{name}", f"step {k}: overwriting a result changed later ones: {str(pic)[:300]} "
                                              f"became {str(third)[:300]}")
            return
        res.count("aliasing_checked")


def shrink(scn):
    for i, s in enumerate(scn["steps"]):
        if s["interrupt"]:
            for n in (None, s["interrupt"] // 2, s["interrupt"] - 1):
                if n != 0:
                    c = json.loads(json.dumps(scn))
                    c["steps"][i]["interrupt"] = n
                    yield c
