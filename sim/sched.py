"""Deterministic scheduler for threads of one simulated execution.

Logical threads are real threads of which exactly one runs at any time.  At every
scheduling point (a LINE event, or every bytecode instruction, of hrosailing code)
the running thread asks the scheduler whether to hand over.  All decisions come
from the scenario: either a seeded policy or an explicit list of preemptions
[(step, thread)], which is what a minimised replay file contains.
"""
import random
import sys
import threading
import zlib

from sim.core import HRO_PREFIX, SimStop

_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = None  # the active scheduler


class Deadlock(SimStop):
    """No logical thread can run."""


class CoopLock:
    """Lock that yields to the scheduler instead of blocking the only running
    thread; behaves like a normal lock outside of a simulation."""

    def __init__(self, reentrant=False):
        self._lock = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or not s.owns():
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking:
                return False
            s.blocked()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):  # _is_owned, _at_fork_reinit, ...
        return getattr(self._lock, name)


def install_cooperative_locks():
    """Locks that hrosailing (if it ever uses any) takes become scheduling points.
    Only modules below hrosailing get them."""

    def make(real, reentrant):
        def factory(*args, **kwargs):
            frame = sys._getframe(1)
            if frame.f_code.co_filename.startswith(HRO_PREFIX):
                return CoopLock(reentrant)
            return real(*args, **kwargs)

        return factory

    threading.Lock = make(_RealLock, False)
    threading.RLock = make(_RealRLock, True)


class Scheduler:
    """policy: {"kind": "random"|"pct"|"place"|"explicit", "seed": n, "p": float,
    "depth": k, "horizon": n, "grain": "line"|"instr", "preempt": [[step, tid]]}

    "place" picks one in `every` of the places of the library by a hash with the seed and
    switches nearly only there, so that all threads meet at the same few lines."""

    TOOL = 4

    def __init__(self, policy, exclude=()):
        self.policy = policy
        self.rng = random.Random(f"sched:{policy.get('seed', 0)}")
        self.exclude = tuple(HRO_PREFIX + e for e in exclude)
        self.step = 0
        self.switches = []
        self.points = 0
        self.sig = 0
        self.explicit = {int(s): int(t) for s, t in policy.get("preempt", [])}
        self.max_steps = policy.get("max_steps", 2_000_000)
        self.limit = policy.get("limit")  # no preemption after so many points
        self.places = {}

    # -- running
    def run(self, fns):
        global _current
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done_sem = threading.Semaphore(0)
        self.alive = set(range(n))
        self.results = [None] * n
        self.ident = {}
        self.cur = 0
        if self.policy["kind"] == "pct":
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            horizon = max(2, self.policy.get("horizon", 2000))
            self.change = {
                self.rng.randrange(1, horizon): i
                for i in range(self.policy.get("depth", 3))
            }
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "hrosim-sched")
        ev = mon.events
        event = ev.INSTRUCTION if self.policy.get("grain") == "instr" else ev.LINE

        def hit(code, where):
            fn = code.co_filename
            if not fn.startswith(HRO_PREFIX) or fn.startswith(self.exclude):
                return mon.DISABLE
            if self.owns():
                self.here = (code, where)
                self.point()
            return None

        threads = [
            threading.Thread(target=self._body, args=(i, fn), daemon=True)
            for i, fn in enumerate(fns)
        ]
        mon.register_callback(self.TOOL, event, hit)
        _current = self
        try:
            for t in threads:
                t.start()
            mon.set_events(self.TOOL, event)
            self.cur = self._first()
            self.sem[self.cur].release()
            self.done_sem.acquire()
            for t in threads:
                t.join(10)
        finally:
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
            _current = None
        return self.results

    def _first(self):
        if self.policy["kind"] == "pct":
            return max(self.alive, key=lambda i: self.prio[i])
        if self.policy["kind"] == "explicit":
            return self.explicit.get(0, 0)
        first = self.rng.randrange(len(self.alive))
        self.switches.append([0, first])
        return first

    def _body(self, i, fn):
        self.sem[i].acquire()
        self.ident[threading.get_ident()] = i
        try:
            self.results[i] = ("ok", fn())
        except SimStop as exc:
            self.results[i] = ("stop", exc)
        except Exception as exc:  # pylint: disable=broad-except
            self.results[i] = ("exc", exc)
        self.ident.pop(threading.get_ident(), None)
        self.alive.discard(i)
        self.step += 1
        if not self.alive:
            self.done_sem.release()
            return
        nxt = self._next_after_end()
        self.switches.append([self.step, nxt])
        self.cur = nxt
        self.sem[nxt].release()

    def _next_after_end(self):
        if self.policy["kind"] == "pct":
            return max(self.alive, key=lambda i: self.prio[i])
        t = self.explicit.get(self.step) if self.policy["kind"] == "explicit" else None
        if t in self.alive:
            return t
        if self.policy["kind"] == "explicit":
            return min(self.alive)
        return self.rng.choice(sorted(self.alive))

    def owns(self):
        return self.ident.get(threading.get_ident()) == self.cur and bool(self.alive)

    def point(self):
        self.step += 1
        self.points += 1
        if self.limit is not None and self.points > self.limit:
            sys.monitoring.set_events(self.TOOL, 0)
            return
        if self.step > self.max_steps:
            raise Deadlock("schedule exceeded its step bound")
        nxt = self._choose()
        if nxt is not None and nxt != self.cur and nxt in self.alive:
            self._hand_over(nxt)

    def _choose(self):
        kind = self.policy["kind"]
        if kind == "random":
            if self.rng.random() < self.policy.get("p", 0.05):
                others = sorted(self.alive - {self.cur})
                return self.rng.choice(others) if others else None
            return None
        if kind == "place":
            if self.rng.random() < (self.policy["p"] if self._chosen() else 0.0003):
                others = sorted(self.alive - {self.cur})
                return self.rng.choice(others) if others else None
            return None
        if kind == "pct":
            if self.step in self.change:
                self.prio[self.cur] = -1 - self.change[self.step]
            return max(self.alive, key=lambda i: self.prio[i])
        return self.explicit.get(self.step)

    def _chosen(self):
        code, where = self.here
        key = (code.co_filename, code.co_name, where)
        if key not in self.places:
            text = f"{code.co_filename[len(HRO_PREFIX):]}:{code.co_name}:{where}:{self.policy['seed']}"
            self.places[key] = zlib.crc32(text.encode()) % self.policy["every"] == 0
        return self.places[key]

    def _hand_over(self, nxt):
        me = self.cur
        self.switches.append([self.step, nxt])
        self.sig = hash((self.sig, self.step, nxt)) & 0xFFFFFFFFFFFF
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def blocked(self):
        """The running thread waits for a lock held by a parked thread."""
        self.step += 1
        others = sorted(self.alive - {self.cur})
        if not others or self.step > self.max_steps:
            raise Deadlock("all threads wait")
        if self.policy["kind"] == "explicit":
            nxt = self.explicit.get(self.step, others[0])
            self._hand_over(nxt if nxt in others else others[0])
        else:
            self._hand_over(self.rng.choice(others))
