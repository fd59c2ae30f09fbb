"""Entry point of every check: seeded search, minimisation, replay, evidence."""
import argparse
import ctypes
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def warm_up():
    """Import the third-party stack, then hrosailing from /repo (never from a
    byte-code cache that could be stale)."""
    from sim import optional, sched

    sched.install_cooperative_locks()
    optional.install()
    import numpy, pandas, scipy.interpolate, scipy.odr, scipy.optimize  # noqa
    import scipy.spatial, scipy.stats, matplotlib.pyplot, pynmea2  # noqa

    sys.pycache_prefix = os.path.join(os.environ["HROSIM_SCRATCH"], "pyc")
    import gc

    import hrosailing
    import hrosailing.plotting

    gc.collect()
    gc.freeze()
    where = os.path.dirname(os.path.abspath(hrosailing.__file__))
    want = os.environ.get("HROSIM_REPO", "/repo")
    if where != f"{want}/hrosailing":
        raise SystemExit(f"hrosailing was imported from {where}, not from {want}")


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def scenario_for(mod, prop, seed, run, tier):
    if run < len(getattr(mod, "FIXED", [])):
        scn = mod.FIXED[run]
    else:
        scn = mod.generate(random.Random(f"{prop}:{seed}:{run}"), tier)
    scn = json.loads(json.dumps(scn))
    return scn


# A run that does not come back within the wall guard is executed again with a bound
# on the steps of the code under test; only exceeding that bound is a violation, so
# a slow machine alone never raises an alarm.
STEP_LIMIT = 8_000_000
GUARD = {"always": False}


def run_child(mod, scn, scratch, wfd, bounded):
    """Body of the forked process that executes one scenario."""
    from sim.core import Ctx, StepBudget, jdump, record_exception

    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    ctx = Ctx(scratch)
    out = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        random.seed(0)
        import numpy as np

        np.random.seed(0)
        if bounded:
            with StepBudget(STEP_LIMIT, tool=5):
                mod.execute(scn, ctx)
        else:
            mod.execute(scn, ctx)
        out = ctx.res.as_dict()
    except BaseException as exc:  # pylint: disable=broad-except
        if record_exception(ctx.res, exc):
            out = ctx.res.as_dict()
        else:
            out = {"error": traceback.format_exc()}
    data = jdump(out).encode()
    ctx.disk.end()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def execute_isolated(mod, scn, scratch, wall=None, bounded=False):
    """One scenario in one forked process; returns its result dict."""
    bounded = bounded or GUARD["always"]
    first = wall or getattr(mod, "WALL", 20)
    wall = 240 if bounded else first
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its worker
        run_child(mod, scn, scratch, w, bounded)
    os.close(w)
    chunks, deadline = [], time.monotonic() + wall
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    timed_out = time.monotonic() >= deadline
    if timed_out:
        for kill in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                kill()
            except (ProcessLookupError, PermissionError):
                pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out and not bounded:
        return execute_isolated(mod, scn, scratch, bounded=True)
    if timed_out:
        return {"error": f"wall guard of {wall} s hit"}
    data = b"".join(chunks)
    if not data:
        return {"error": f"execution ended with status {st} and no result"}
    return json.loads(data)


def worker(mod, prop, seed, tier, indices, wid, wfd, deadline):
    out = os.fdopen(wfd, "w")
    scratch = os.path.join(os.environ["HROSIM_SCRATCH"], f"w{wid:03d}")
    for i in indices:
        if time.monotonic() > deadline:
            break
        try:
            scn = scenario_for(mod, prop, seed, i, tier)
            res = execute_isolated(mod, scn, scratch)
        except BaseException:  # pylint: disable=broad-except
            res = {"error": traceback.format_exc()}
        res["run"] = i
        if not res.get("violations") and "error" not in res:
            res.pop("trace", None)
        try:
            out.write(json.dumps(res) + "\n")
            out.flush()
        except BrokenPipeError:
            os._exit(0)
    out.close()
    os._exit(0)


def sweep(mod, prop, seed, tier, indices, jobs, deadline, on_result):
    pipes = {}
    for w in range(jobs):
        mine = indices[w::jobs]
        if not mine:
            continue
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for other in pipes:
                os.close(other)
            worker(mod, prop, seed, tier, mine, w, wfd, deadline)
        os.close(wfd)
        pipes[r] = [pid, b""]
    stop = False
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.close(r)
                os.waitpid(pipes[r][0], 0)
                del pipes[r]
                continue
            pipes[r][1] += chunk
            *lines, pipes[r][1] = pipes[r][1].split(b"\n")
            for line in lines:
                if on_result(json.loads(line)):
                    stop = True
        if stop:
            for r, (pid, _) in pipes.items():
                try:
                    os.kill(pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
            break


# ------------------------------------------------------------ minimisation
def _set(scn, path, value):
    scn = json.loads(json.dumps(scn))
    cur = scn
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return scn


def _get(scn, path):
    for p in path:
        try:
            scn = scn[p]
        except (KeyError, IndexError, TypeError):
            return None
    return scn


def ddmin_list(scn, path, test):
    items = _get(scn, path)
    if not isinstance(items, list) or not items:
        return scn
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        reduced = False
        for start in range(0, len(items), size):
            cand = items[:start] + items[start + size:]
            c = _set(scn, path, cand)
            if test(c):
                scn, items = c, cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return scn


def minimise(mod, scn, sig, scratch, budget_s, max_exec):
    if sig.startswith("unreadable-result"):  # a cut scenario can be unreadable as well
        return scn, 0
    start, used = time.monotonic(), [0]
    best = {"res": None}

    def test(c):
        if used[0] >= max_exec or time.monotonic() - start > budget_s:
            return False
        used[0] += 1
        try:
            res = execute_isolated(mod, json.loads(json.dumps(c)), scratch)
        except BaseException:  # pylint: disable=broad-except
            return False
        ok = any(v[0] == sig for v in res.get("violations", []))
        if ok:
            best["res"] = res
        return ok

    explicit = getattr(mod, "make_explicit", None)
    changed = True
    rounds = 0
    while changed and rounds < 4:
        rounds += 1
        before = json.dumps(scn)
        for path in getattr(mod, "SHRINK_LISTS", [("ops",), ("faults",)]):
            if callable(path):
                for p in path(scn):
                    scn = ddmin_list(scn, p, test)
            else:
                scn = ddmin_list(scn, path, test)
        for cand in getattr(mod, "shrink", lambda s: [])(scn):
            if test(cand):
                scn = cand
        changed = json.dumps(scn) != before
        if used[0] >= max_exec or time.monotonic() - start > budget_s:
            break
    del explicit
    return scn, used[0]


# ------------------------------------------------------------------- main
def read_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line:
                rec = json.loads(line)
                if rec.get("property") == prop and rec.get("status") == "known":
                    out.append(rec)
    return out


def replay(mod, prop, path):
    rec = json.load(open(path, encoding="utf-8"))
    GUARD["always"] = rec["signature"].startswith("progress")
    res = execute_isolated(
        mod, rec["scenario"], os.path.join(os.environ["HROSIM_SCRATCH"], "w000"))
    if "error" in res:
        print("HARNESS-ERROR", res["error"])
        return 2
    for line in res.get("trace", []):
        print("  ", line)
    hits = [v for v in res["violations"] if v[0] == rec["signature"]]
    same = bool(hits) and res["digest"] == rec.get("digest")
    for s, m in res["violations"]:
        print(f"   {s}: {m}")
    if hits:
        print(f"VIOLATION property={prop} replay={path}")
        print("replay reproduces the recorded execution exactly" if same else
              "replay reproduces the violation (the code differs from the recorded run)")
        return 1
    print("the recorded violation does not occur on this tree")
    return 0


def confirmed(prop, path):
    """A violation counts only if its replay file reproduces it in a new process."""
    import subprocess

    try:
        out = subprocess.run([sys.executable, "-m", "sim.runner", prop, "--replay", path],
                             cwd=VERIF, capture_output=True, timeout=600, check=False)
    except subprocess.TimeoutExpired:
        return False
    return out.returncode == 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("HROSIM_JOBS", "8")))
    ap.add_argument("--show", type=int, help="print the scenario and result of one run")
    ap.add_argument("--digests", help="write run digests to this file")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    t0 = time.monotonic()
    prop = args.prop.upper()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    warm_up()
    mod = load(prop)
    if hasattr(mod, "setup"):
        mod.setup(os.environ["HROSIM_SCRATCH"])
    if args.replay:
        return replay(mod, prop, args.replay)
    scratch0 = os.path.join(os.environ["HROSIM_SCRATCH"], "w000")
    if args.show is not None:
        scn = scenario_for(mod, prop, seed, args.show, tier)
        print(json.dumps(scn)[:6000])
        res = execute_isolated(mod, scn, scratch0)
        print(res["error"] if "error" in res else json.dumps(res, indent=1)[:6000])
        return 0

    n = args.runs or mod.RUNS[tier]
    cap = {"quick": 150, "thorough": 3 * 3600}[tier]
    cap = float(os.environ.get("HROSIM_CAP_S", cap))
    fixed = len(getattr(mod, "FIXED", []))
    indices = list(range(args.start, args.start + n + (fixed if not args.start else 0)))
    agg = {"faults": {}, "counts": {}, "states": set(), "sim_time": 0.0, "runs": 0,
           "keys": set(), "nontrivial": 0}
    errors, found, digests = [], {}, {}
    max_sigs = 4

    def on_result(res):
        agg["runs"] += 1
        if "error" in res:
            errors.append((res["run"], res["error"]))
            return len(errors) > 20
        digests[res["run"]] = res["digest"]
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["states"].update(res["states"])
        agg["sim_time"] += res["sim_time"]
        if res["nontrivial"] and res["digest"] not in agg["keys"]:
            agg["keys"].add(res["digest"])
            agg["nontrivial"] += 1
        for sig, msg in res["violations"]:
            cur = found.setdefault(sig, {"runs": [], "msg": msg, "first": None})
            cur["runs"].append(res["run"])
            if cur["first"] is None or res["run"] < cur["first"]:
                cur["first"], cur["msg"] = res["run"], msg
        hangs = sum(len(f["runs"]) for sig, f in found.items() if sig.startswith("progress"))
        return tier == "quick" and (hangs > 3 or sum(len(f["runs"]) for f in found.values()) > 200)

    t1 = time.monotonic()
    sweep(mod, prop, seed, tier, indices, args.jobs, t0 + cap, on_result)
    t_sweep = time.monotonic() - t1

    if args.digests:
        json.dump(digests, open(args.digests, "w"))

    # determinism: some runs again, in this process tree, must give the same digest
    again = [i for i in sorted(digests) if i % max(1, len(digests) // 4) == 0][:4]
    mismatches = []
    if not found:
        for i in again:
            res = execute_isolated(mod, scenario_for(mod, prop, seed, i, tier), scratch0)
            if res.get("digest") != digests[i]:
                mismatches.append(i)

    # known findings: their pinned scenarios are executed on every run
    known = read_known(prop)
    known_lines = []
    for rec in known:
        res = execute_isolated(mod, rec["scenario"], scratch0)
        sigs = {v[0] for v in res.get("violations", [])}
        if rec["signature"] in sigs:
            known_lines.append(f"KNOWN-FINDING: property={prop} {rec['what']}")
        for sig, msg in res.get("violations", []):
            if sig != rec["signature"]:
                found.setdefault(sig, {"runs": [], "msg": msg, "first": None,
                                       "scenario": rec["scenario"]})

    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    violations, unconfirmed = [], []
    order = sorted(found.items(), key=lambda kv: (-len(kv[1]["runs"]), kv[0]))
    for sig, info in order[:max_sigs]:
        scn = info.get("scenario") or scenario_for(mod, prop, seed, info["first"], tier)
        original = scn
        GUARD["always"] = sig.startswith("progress")
        explicit = getattr(mod, "make_explicit", None)
        if explicit:
            scn = explicit(scn, lambda s: execute_isolated(mod, s, scratch0), sig)
        small, used = minimise(mod, scn, sig, scratch0, 40 if tier == "quick" else 300, 300)
        res = execute_isolated(mod, small, scratch0)
        hits = [v for v in res.get("violations", []) if v[0] == sig]
        if not hits:
            small, res = original, execute_isolated(mod, original, scratch0)
            hits = [v for v in res.get("violations", []) if v[0] == sig]
        path = os.path.join(VERIF, "evidence", "replay", f"{prop}-s{seed}-{len(violations)}.json")
        rec = {
            "property": prop, "seed": seed, "run": info["first"], "tier": tier,
            "signature": sig, "message": hits[0][1] if hits else info["msg"],
            "reproduced": bool(hits), "scenario": small, "original_scenario": original,
            "minimisation_executions": used, "trace": res.get("trace", []),
            "digest": res.get("digest"),
            "replay_command": f"./check.sh {prop} --replay {os.path.relpath(path, VERIF)}",
        }
        def store(fields):
            rec.update(fields)
            with open(path, "w", encoding="utf-8") as f:
                json.dump(rec, f, indent=1)

        store({})
        ok = confirmed(prop, path)
        if not ok:  # then the execution as it was found, then those of other runs
            others = [scenario_for(mod, prop, seed, i, tier) for i in sorted(info["runs"])[:3]]
            for c in [original] + others:
                res = execute_isolated(mod, c, scratch0)
                store({"scenario": c, "trace": res.get("trace", []), "digest": res.get("digest")})
                ok = confirmed(prop, path)
                if ok:
                    break
        if ok:
            violations.append((sig, rec["message"], path, len(info["runs"])))
        else:
            unconfirmed.append((sig, rec["message"]))

    wall = time.monotonic() - t0
    samples = []
    for i in indices[: 3]:
        text = json.dumps(scenario_for(mod, prop, seed, i, tier))
        samples.append(text if len(text) < 1500 else text[:1500] + " ...")
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": agg["nontrivial"],
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs": agg["runs"],
            "seeds_per_hour": round(agg["runs"] / max(t_sweep, 1e-9) * 3600),
            "simulated_time_s": round(agg["sim_time"], 3),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "events": dict(sorted(agg["counts"].items())),
            "distinct_states": len(agg["states"]),
            "state_measure": getattr(mod, "STATE_MEASURE", ""),
            "real_components": getattr(mod, "REAL", ""),
            "stub_components": getattr(mod, "STUB", ""),
            "determinism_rechecked": len(again) if not found else 0,
            "determinism_mismatches": mismatches,
            "known_findings_reproduced": len(known_lines),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "unconfirmed": [list(u) for u in unconfirmed],
    }
    if not args.no_evidence:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
    for line in known_lines:
        print(line)
    print(f"{prop} tier={tier} seed={seed}: {agg['runs']} simulated runs "
          f"({agg['nontrivial']} distinct non-trivial, {len(agg['states'])} states), "
          f"faults {sum(agg['faults'].values())}, {wall:.1f} s")
    if mismatches:
        print(f"WARNING: runs {mismatches} gave different digests when repeated")
    for sig, msg in unconfirmed:
        print(f"  not reproduced in a new process, not counted: {sig}: {msg[:300]}")
    for sig, msg, path, k in violations:
        print(f"  [{k} runs] {sig}: {msg[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if errors:
        print(f"HARNESS-ERROR in {len(errors)} runs; first: run {errors[0][0]}\n{errors[0][1]}")
        return 2
    if not agg["runs"]:
        print("HARNESS-ERROR: nothing was executed")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
