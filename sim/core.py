"""Shared pieces of the simulator: results, seams and helpers.

A *scenario* is a plain JSON value that completely describes one simulated
execution (operations, faults, schedule).  `execute(scenario, ctx)` of a property
module is a pure function of the scenario and of the code in /repo: everything
that could differ between two executions is decided by the scenario.
"""
import ctypes
import hashlib
import json
import os
import re
import sys
import traceback

HRO_PREFIX = os.path.join(os.environ.get("HROSIM_REPO", "/repo"), "hrosailing", "")


class SimStop(BaseException):
    """The simulator ends the code under test (not catchable by `except Exception`)."""


class StepBudgetExceeded(SimStop):
    """The code under test made more loop steps than the liveness bound allows."""


class Abort(Exception):
    """Ends an execution whose violation has been recorded."""


def said(exc):
    """The message of an exception, without addresses of objects"""
    return re.sub(r"0x[0-9a-fA-F]{6,}", "0x", str(exc))


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_jdefault)


def _jdefault(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    return repr(x)


def h(x):
    return hashlib.sha256(
        (x if isinstance(x, str) else jdump(x)).encode()
    ).hexdigest()[:16]


class Result:
    """What one simulated execution reports."""

    def __init__(self):
        self.violations = []  # (signature, message)
        self.faults = {}  # kind -> times injected
        self.counts = {}  # free counters
        self.states = set()  # hashes of distinct states / interleavings
        self.sim_time = 0.0  # simulated seconds
        self.trace = []
        self.nontrivial = False

    def fail(self, sig, msg=""):
        self.violations.append((str(sig), str(msg)[:2000]))

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def state(self, x):
        self.states.add(h(x))

    def log(self, *x):
        self.trace.append(" ".join(str(y) for y in x)[:300])

    def as_dict(self):
        return {
            "violations": self.violations,
            "faults": self.faults,
            "counts": self.counts,
            "states": sorted(self.states),
            "sim_time": self.sim_time,
            "trace": self.trace[-400:],
            "nontrivial": self.nontrivial,
            "digest": h(
                [self.violations, self.faults, self.counts,
                 sorted(self.states), self.trace, self.sim_time]
            ),
        }


def record_exception(res, exc):
    """Book an exception that ended an execution: Abort is already booked, an
    exception raised inside hrosailing is a violation (the scenario requires
    success), everything else is an error of the harness (False)."""
    if isinstance(exc, Abort):
        return True
    if isinstance(exc, SimStop):
        res.fail("progress", f"{type(exc).__name__}: {exc}")
        return True
    found = exc.args if isinstance(exc, ChildFailed) else raised_inside(exc)
    if found:
        res.fail(*found)
        return True
    return False


class ChildFailed(Exception):
    """hrosailing raised in a child process: (signature, detail)"""


UNREADABLE = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError)


def raised_inside(exc):
    """(signature, detail) of an exception that hrosailing raised, or that an oracle
    raised because it was given something it cannot read (missing entries, other
    types); None for everything else (operating system, simulator, interrupts)"""
    frames = traceback.extract_tb(exc.__traceback__)
    inside = [f for f in frames if f.filename.startswith(HRO_PREFIX)]
    if isinstance(exc, (KeyboardInterrupt, SystemExit, SimStop)):
        return None
    if inside:
        return f"unexpected-exception:{type(exc).__name__}", f"{exc} in {inside[-1].name}"
    if isinstance(exc, UNREADABLE):
        at = frames[-1]
        return (f"unreadable-result:{type(exc).__name__}",
                f"{exc} in {at.name}, line {at.lineno} of {os.path.basename(at.filename)}")
    return None


def other_digits(x):
    """A different number whose text has the same length (x itself if there is none):
    the content of an older file that a torn update mixes up most easily."""
    text = repr(x)
    new = re.sub(r"[1-8]", lambda m: str(int(m.group()) % 8 + 1), text.split("e")[0])
    new = type(x)(new + text[len(text.split("e")[0]):])
    return new if len(repr(new)) == len(text) else x


# --------------------------------------------------------------- disk seam
OPS = {
    "open_r": 0, "open_w": 1, "read": 2, "write": 3, "close": 4, "fsync": 5,
    "rename": 6, "unlink": 7, "trunc": 8, "mkdir": 9,
}
ACTS = {"err": 1, "short": 2, "eintr": 3, "errdone": 4}


class Disk:
    """Python face of iofault.c; one instance per simulated execution."""

    def __init__(self, root):
        self.root = root
        self.lib = ctypes.CDLL(os.environ["HROSIM_SHIM"])
        for f in ("sim_io_count", "sim_io_fired", "sim_io_written",
                  "sim_io_total", "sim_io_open_fds", "sim_io_log", "sim_io_log_len"):
            getattr(self.lib, f).restype = ctypes.c_long
        self.rules = []

    def begin(self, plan=None):
        """Start watching; plan: {"rules": [[op, nth, action, arg]...],
        "space": n|None, "crash_at": n|None, "crash_op": n|None}"""
        lib, c = self.lib, ctypes.c_long
        lib.sim_io_begin(os.fsencode(self.root.rstrip("/") + "/"))
        plan = plan or {}
        self.rules = list(plan.get("rules", []))
        for op, nth, action, arg in self.rules:
            lib.sim_io_rule(OPS[op], c(int(nth)), ACTS[action], c(int(arg)))
        if plan.get("space") is not None:
            lib.sim_io_space(c(int(plan["space"])))
        if plan.get("crash_at") is not None:
            lib.sim_io_crash_at(c(int(plan["crash_at"])))
        if plan.get("crash_op") is not None:
            lib.sim_io_crash_op(c(int(plan["crash_op"])))

    def end(self):
        self.lib.sim_io_end()

    def fired(self):
        """[(op, action, errno/arg)] of the rules that fired"""
        return [
            (r[0], r[2], r[3])
            for i, r in enumerate(self.rules)
            if self.lib.sim_io_fired(i) > 0
        ]

    def count(self, op):
        return self.lib.sim_io_count(OPS[op])

    def written(self):
        return self.lib.sim_io_written()

    def total(self):
        return self.lib.sim_io_total()

    def open_fds(self):
        return self.lib.sim_io_open_fds()

    def log(self):
        names = {v: k for k, v in OPS.items()}
        L = self.lib
        return [
            (names[L.sim_io_log(i, 0)], L.sim_io_log(i, 1), L.sim_io_log(i, 2))
            for i in range(L.sim_io_log_len())
        ]


class Ctx:
    """Per-execution context."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.res = Result()
        self.disk = Disk(scratch)

    def must(self, label, fn, *args, **kwargs):
        """Call code under test that has to succeed."""
        try:
            return fn(*args, **kwargs)
        except SimStop as exc:
            self.res.fail(f"progress:{label}", str(exc))
            raise Abort() from exc
        except Exception as exc:  # pylint: disable=broad-except
            self.res.fail(f"raised:{label}:{type(exc).__name__}", f"{exc!r}")
            raise Abort() from exc


def uninstalled(name):
    """From now on (in this process) the optional package is not installed"""
    import sys

    for mod in [m for m in sys.modules if m == "hrosailing" or m.startswith("hrosailing.")]:
        del sys.modules[mod]
    sys.modules[name] = None


def run_in_child(fn):
    """Run fn in a forked child (a process that may die at any point); returns
    (exit status, JSON result or None). What hrosailing raises in the child is
    raised again here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = fn()
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
            code = 0
        except BaseException as exc:  # pylint: disable=broad-except
            found = raised_inside(exc)
            code = 3
            if found:
                os.write(w, json.dumps(found).encode())
                code = 4
            else:
                sys.stderr.write(traceback.format_exc())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    st = os.waitstatus_to_exitcode(st)
    if st == 4 and data:
        raise ChildFailed(*json.loads(data))
    return st, (json.loads(data) if data else None)


# ----------------------------------------------------------- liveness seam
class StepBudget:
    """Counts loop iterations and calls in hrosailing code; raises
    StepBudgetExceeded inside the code under test when the bound is passed."""

    def __init__(self, limit, tool=3):
        self.TOOL = tool  # pylint: disable=invalid-name
        self.limit = limit
        self.n = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "hrosim-steps")
        ev = mon.events

        def hit(code, *_):
            if not code.co_filename.startswith(HRO_PREFIX):
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.n = -(10**12)  # raise once
                raise StepBudgetExceeded(
                    f"more than {self.limit} steps in {code.co_qualname}"
                )
            return None

        mon.register_callback(self.TOOL, ev.JUMP, hit)
        mon.register_callback(self.TOOL, ev.PY_START, hit)
        mon.set_events(self.TOOL, ev.JUMP | ev.PY_START)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)
        return False
