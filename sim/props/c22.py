"""C22: results do not depend on the process in which they are computed."""
import json
import re

from sim import diagrams as dg, envs, ops, pipes, weather as wx
from sim.core import h

RUNS = {"quick": 900, "thorough": 150000}
WALL = 150
LEVEL = "exploration"
RULE = ("A run performs the same operations (all parts of the library) in a plain process and in two processes with another "
        "environment: hash seed, locale and encoding of the process and of the application, -O/-OO, allocator, time zone whose clock changes fall on the dates of the "
        "data, system date, working directory, umask, decimal context, numpy and pandas options, garbage collection, "
        "warnings, random state, another thread, and operations performed before. Results (values, order of keys, kind of "
        "error) must be the same, and files written in one environment must load equally in the others. Non-trivial: "
        "an operation succeeded in all processes. Distinct by digest.")
STATE_MEASURE = "distinct (operation, setting of the environment, ending)"
REAL = "hrosailing as a whole, numpy, scipy, pandas, CPython processes of their own"
STUB = "system time (offset), environment of the processes, netCDF4 and meteostat"
ASSUMPTIONS = ["results may differ in the last digits (1e-9): numpy rounds differently depending on alignment",
               "unseeded samplers get the same random numbers in all processes"]
SHRINK_LISTS = [("steps",), ("envs",), ("envs", 0, "before"), ("envs", 1, "before")]

NAMES = sorted(set(ops.OPS) - {"plot"})
DATE = re.compile(r"\d{4}-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)")
DAYS = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
TIMED = ["get_weather", "weather-file", "component", "component", "pipeline", "course", "data"]
SETTINGS = ["tz", "tz", "locale", "clock", "cwd", "decimal", "print", "pandas", "gc", "warn", "random", "umask", "thread", "before",
            "before"]

setup = envs.setup


def gen_tz(rng, text):
    """A zone whose clock is changed when the data was recorded"""
    times = DATE.findall(text)
    if times and rng.random() < 0.8:
        m, d, *clock = rng.choice(times)
        m, d, clock = int(m), int(d), ":".join(clock)
    else:
        m, d, clock = rng.randint(1, 12), rng.randint(1, 28), f"{rng.randint(0, 23)}:00:00"
    day, other = DAYS[m - 1] + d, rng.randint(1, 365)
    change = [f"J{other}/2", f"J{day}/{clock}"]  # the end of summer time splits the data at once
    if rng.random() < 0.15:
        change.reverse()
    off = rng.choice([0, -1, 5, -5, 11, -13])
    return f"AAA{off}BBB{off - rng.choice([1, 1, 2, 4, -1])},{change[0]},{change[1]}"


def gen_step(rng, near=None):
    """near: a step that this one resembles"""
    if near is not None and rng.random() < 0.5:
        return changed(rng, near) if rng.random() < 0.6 else near
    name = near["op"] if near is not None and rng.random() < 0.7 and near["op"] in NAMES else rng.choice(NAMES + TIMED)
    spec = ops.OPS[name].gen(rng)
    while name == "component" and spec["kind"] not in ("imputator", "smoother", "weigher", "handler") and rng.random() < 0.6:
        spec = ops.OPS[name].gen(rng)
    return {"op": name, "spec": spec, "views": rng.random() < 0.3}


def gen_timed(rng):
    """A step whose result is made of times"""
    name = rng.choice(["get_weather", "component", "component", "pipeline"])
    while True:
        spec = ops.OPS[name].gen(rng)
        if name == "get_weather":
            ts = [t.replace(tzinfo=None) for t in wx.times(spec["spec"])]
            if len(ts) > 1 and sorted(ts) == ts:
                spec["spec"]["times"] = [t.isoformat() for t in ts]
                spec["points"] = [[(a + (b - a) * rng.random()).isoformat(), float(spec["spec"]["lats"][0]),
                                   float(spec["spec"]["lons"][0])] for a, b in zip(ts, ts[1:])]
        if name == "component" and spec["kind"] == "imputator":  # lose the first value of some series
            t = spec["use"]["table"]
            for c in range(len(t["cols"])):
                if t["rows"] and not t["cols"][c].startswith("datetime") and rng.random() < 0.5:
                    for row in t["rows"][:rng.randint(1, 3)]:
                        row[c] = None
        if name != "component" or spec["kind"] in ("imputator", "smoother"):
            return {"op": name, "spec": spec, "views": False}


def changed(rng, step):
    """The step with some of its numbers changed (it agrees in most of them)"""
    step = json.loads(json.dumps(step))
    places = []

    def walk(x):
        for k, v in enumerate(x) if isinstance(x, list) else x.items():
            if isinstance(v, float):
                places.append((x, k))
            elif isinstance(v, (list, dict)):
                walk(v)

    walk(step["spec"])
    for x, k in rng.sample(places, min(len(places), rng.choice([1, 1, 3, 20]))):
        x[k] = rng.choice([x[k] + 1, round(x[k] * 1.5, 3), rng.uniform(0, 20)])
    return step


def gen_env(rng, steps):
    env = {"server": rng.randrange(len(envs.SERVERS))}
    text = json.dumps(steps[-1:] if rng.random() < 0.7 else steps)
    keys = set(rng.choices(SETTINGS, k=rng.choice([1, 2, 4, 8])))
    if DATE.search(text) and rng.random() < 0.6:
        keys.add("tz")
    for key in sorted(keys):
        env[key] = {"tz": lambda: gen_tz(rng, text),
                    "locale": lambda: rng.choice(sorted(envs.LOCALES)), "clock": lambda: rng.choice([3600, 951782400, 1709210000, 2150000000, 4102444800]),
                    "cwd": lambda: rng.choice(["a b", "x.csv", "x/y/z"]),
                    "decimal": lambda: rng.choice([1, 3]), "print": lambda: rng.choice([1, 3]),
                    "pandas": lambda: True, "gc": lambda: rng.choice(["off", "often"]), "warn": lambda: True,
                    "random": lambda: rng.randrange(1, 99), "umask": lambda: rng.choice([0o077, 0]),
                    "thread": lambda: True,
                    "before": lambda: [gen_step(rng, rng.choice(steps)) for _ in range(rng.randint(1, 3))]}[key]()
    return dict(sorted(env.items()))


def generate(rng, tier):
    del tier
    if rng.random() < 0.25:
        what = rng.choice(["diagram", "diagram", "weather", "array", "orc", "opencpn"])
        spec = (wx.gen_spec(rng, big=rng.random() < 0.5) if what == "weather" else dg.gen_any(rng, kinds=("table", "cloud", "curve", "multi", "multi")) if what == "diagram"
                else dg.gen_table(rng, 5, 7))
        steps = [{"op": "store", "what": what, "spec": spec}]
    else:
        steps = [gen_step(rng) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.35:
            steps.append(gen_timed(rng))
    return json.loads(json.dumps({"steps": steps, "envs": [gen_env(rng, steps) for _ in range(2)]}))


def execute(scn, ctx):
    res = ctx.res
    if not scn["steps"]:
        return
    res.nontrivial = False
    count = [0]

    def ask(env, steps):
        count[0] += 1
        return envs.ask({"env": env, "steps": steps, "scratch": f"{ctx.scratch}/p{count[0]}"})

    plain = ask(envs.PLAIN, scn["steps"])
    if plain is None:
        raise RuntimeError("the reference process did not answer")
    store = scn["steps"][0]["op"] == "store"
    if store:
        step = scn["steps"][0]
        loads = [{**step, "op": "load", "files": None}]
        if plain[0][0] == "ok":
            loads.append({**step, "op": "load", "files": plain[0][1]})
            if step["what"] == "weather":  # as another program may write it
                text = {name: as_text(content) for name, content in plain[0][1].items()}
                loads.append({**step, "op": "load", "files": text})
        pictures = ask(envs.PLAIN, loads)
    for env in scn["envs"]:
        got = ask(env, scn["steps"])
        for key in env:
            res.fault(f"{key}={env[key]}" if key == "server" else key)
        if got is None:
            return res.fail("process:died", f"a process with the environment {brief(env)} did not come back from "
                                            f"{[s['op'] for s in scn['steps']]}, a plain one did")
        for step, p, g in zip(scn["steps"], plain, got):
            name = step["op"]
            for key in env:
                res.state(f"{name}:{step.get('what', '')}:{key}:{p[0]}")
            res.count(f"{name} {p[0]}")
            res.nontrivial |= p[0] == "ok"
            if p[0] != g[0] or (p[0] == "err" and p[1] != g[1]):
                return res.fail(f"{name}:ending", f"{name} ends with {brief(g)} in the environment {brief(env)}, with "
                                                  f"{brief(p)} in a plain process; input {brief(step['spec'])}")
            if p[0] == "ok" and not store and not pipes.same(p[1:], g[1:]):
                return res.fail(f"{name}:result", f"{name} gives {difference(p[1:], g[1:])} in a plain process and in "
                                                  f"the environment {brief(env)}; input {brief(step['spec'])}")
        if store and plain[0][0] == "ok":
            there = ask(env, loads)
            here = ask(envs.PLAIN, [{**step, "op": "load", "files": got[0][1]}])
            if there is None or here is None:
                return res.fail("process:died", "loading did not come back")
            for label, a, b in (("an object built", pictures[0], there[0]),
                                ("a file written by a plain process, loaded", pictures[1], there[1]),
                                ("a file written by another program, loaded", pictures[-1], there[-1]),
                                ("a file, written there and loaded in a plain process,", pictures[1], here[0])):
                if not pipes.same(a, b):
                    return res.fail("files:differ", f"{label} in the environment {brief(env)} gives {difference(a, b)}; "
                                                    f"{step['what']} {brief(step['spec'])}")
    res.log(h([[p[0] for p in plain], count[0]]))
    res.log(h([p[1] if p[0] == "err" else "" for p in plain]))


def as_text(content):
    """A JSON file without escaped characters"""
    return json.dumps(json.loads(content), ensure_ascii=False).encode("utf-8").decode("latin1")


def brief(x):
    return json.dumps(x, ensure_ascii=False)[:300]


def difference(a, b):
    """The first place in which two pictures differ"""
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not pipes.same(x, y):
                a, b = x, y
                break
        else:
            break
    return f"{brief(a)} / {brief(b)}"


def shrink(scn):
    for k, env in enumerate(scn["envs"]):
        for key in sorted(set(env) - {"server"}):
            yield {**scn, "envs": [{x: v for x, v in e.items() if j != k or x != key} for j, e in enumerate(scn["envs"])]}
        if env["server"]:
            yield {**scn, "envs": [{**e, "server": 0} if j == k else e for j, e in enumerate(scn["envs"])]}
