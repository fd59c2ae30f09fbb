"""Clock seam: while a SimClock is active all clock functions give simulated time.

The functions of the time module are replaced, and every reference to them (or to the
datetime class and module, for its now()) that a module of hrosailing.pipeline holds."""
import datetime as _dt
import sys
import time as _time
import types

ELAPSED = ["perf_counter", "monotonic", "process_time", "thread_time"]  # the last two only count work
_REAL = {name: getattr(_time, name) for name in ELAPSED + ["time"] + [n + "_ns" for n in ELAPSED + ["time"]]}
_REAL_DT = _dt.datetime


class SimClock:
    def __init__(self, start=1.6e9):
        self.elapsed = 5000.0
        self.wall = start
        self.undo = []

    def advance(self, seconds):
        self.elapsed += seconds
        self.wall += seconds

    def jump(self, seconds):
        self.wall += seconds

    def _functions(self):
        out = {"time": lambda: self.wall, "time_ns": lambda: int(self.wall * 1e9)}
        for n in ELAPSED:
            rate = 1.0 if n in ("perf_counter", "monotonic") else 0.25  # three quarters are spent waiting
            out[n] = lambda rate=rate: self.elapsed * rate
            out[n + "_ns"] = lambda rate=rate: int(self.elapsed * rate * 1e9)
        return out

    def _set(self, where, name, value):
        self.undo.append((where, name, getattr(where, name)))
        setattr(where, name, value)

    def __enter__(self):
        funcs = self._functions()
        by_id = {id(real): funcs[name] for name, real in _REAL.items()}
        clock = self

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, _REAL_DT)

        class SimDateTime(_REAL_DT, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return _REAL_DT.fromtimestamp(clock.wall, tz)

            @classmethod
            def utcnow(cls):
                return _REAL_DT.fromtimestamp(clock.wall, _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return _REAL_DT.fromtimestamp(clock.wall)

        module = types.SimpleNamespace(**{k: getattr(_dt, k) for k in dir(_dt) if not k.startswith("__")})
        module.datetime = SimDateTime
        for name, fn in funcs.items():
            self._set(_time, name, fn)
        for name, mod in list(sys.modules.items()):
            if not name.startswith("hrosailing.pipeline") or mod is None:
                continue
            for attr, value in list(vars(mod).items()):
                if id(value) in by_id:
                    self._set(mod, attr, by_id[id(value)])
                elif value is _REAL_DT:
                    self._set(mod, attr, SimDateTime)
                elif value is _dt:
                    self._set(mod, attr, module)
        return self

    def __exit__(self, *exc):
        for where, name, value in reversed(self.undo):
            setattr(where, name, value)
        self.undo = []
        return False
