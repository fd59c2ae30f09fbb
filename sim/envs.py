"""Process environments: servers that execute operations of the catalogue in processes
with other hash seeds, locales, time zones, clocks, settings and histories.

A server is a Python process of its own (hash seed, locale and optimisation can only be
chosen at the start); every request is executed in a process forked from it, which takes
over the rest of the environment (time zone, system time, directory, settings, ...)."""
import ctypes
import json
import os
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback

# what only the start of a process decides
SERVERS = [
    {"hash": 0, "env": {}, "args": []},
    {"hash": 101, "env": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "args": []},
    {"hash": 77, "env": {"LC_ALL": "C.UTF-8"}, "args": ["-O"]},
    {"hash": 54321, "env": {"LC_ALL": "POSIX", "PYTHONUTF8": "1"}, "args": ["-OO"]},
    {"hash": 4, "env": {"LC_ALL": "C.UTF-8", "PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "85"}, "args": ["-X", "utf8"]},
]
# what an application may choose with setlocale
LOCALES = {"en_US.utf8": ("en_US", "UTF-8"), "de_DE.iso88591": ("de_DE", "ISO-8859-1"), "ko_KR.utf8": ("ko_KR", "UTF-8"),
           "fa_IR.utf8": ("fa_IR", "UTF-8")}
PLAIN = {"server": 0}
_PROCS, _WHERE = [], []


def setup(scratch):
    """Start the servers (once per check)"""
    here = os.path.dirname(os.path.abspath(__file__))
    scratch = tempfile.mkdtemp(prefix="envs", dir=scratch)
    _WHERE.append(scratch)
    shim = os.path.join(scratch, "simtime.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", shim, os.path.join(here, "simtime.c"), "-ldl"], check=True)
    for name, (source, charset) in LOCALES.items():  # without them the applications have no locale
        subprocess.run(["localedef", "-i", source, "-f", charset, os.path.join(scratch, name)], check=False,
                       capture_output=True)
    for k, spec in enumerate(SERVERS):
        env = {**os.environ, **spec["env"], "PYTHONHASHSEED": str(spec["hash"]), "LD_PRELOAD": shim,
               "HROSIM_TIME": shim, "LOCPATH": scratch}
        _PROCS.append(subprocess.Popen(
            [sys.executable, *spec["args"], "-m", "sim.envs", _path(k)], env=env, cwd=os.path.dirname(here),
            stdin=subprocess.DEVNULL))
    end = time.monotonic() + 120
    for k in range(len(SERVERS)):
        while not os.path.exists(_path(k)):
            if time.monotonic() > end or _PROCS[k].poll() is not None:
                raise RuntimeError("an environment server did not start")
            time.sleep(0.02)


def _path(k):
    return os.path.join(_WHERE[-1], f"env{k}.sock")


def ask(request):
    """The answer of the server request["env"]["server"] (None: the process died)"""
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(200)
    s.connect(_path(request["env"]["server"]))
    with s, s.makefile("rwb") as f:
        data = json.dumps(request).encode()
        f.write(struct.pack("!I", len(data)) + data)
        f.flush()
        out = f.read()
    return json.loads(out) if out else None


# ------------------------------------------------------------------ server
def main():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with the check
    from sim import runner

    runner.warm_up()
    from sim import ops  # noqa: F401 pylint: disable=unused-import

    path = sys.argv[1]
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".new")
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    os.rename(path + ".new", path)
    while True:
        conn, _ = s.accept()
        if os.fork() == 0:
            s.close()
            try:
                handle(conn)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            os._exit(0)
        conn.close()


def handle(conn):
    import resource

    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if os.environ.get("DBG"):
        import faulthandler

        faulthandler.dump_traceback_later(20)
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    with conn.makefile("rwb") as f:
        n, = struct.unpack("!I", f.read(4))
        request = json.loads(f.read(n))
        out = serve(request)
        f.write(json.dumps(out).encode())


def serve(request):
    env = request["env"]
    enter(env, request["scratch"])
    out = []

    def work():
        for k, step in enumerate(env.get("before", [])):
            try:
                perform(step, os.path.join(request["scratch"], f"before{k}"))
            except Exception:  # pylint: disable=broad-except
                pass  # a changed input that cannot be built
        for k, step in enumerate(request["steps"]):
            out.append(perform(step, os.path.join(request["scratch"], f"step{k}")))

    if env.get("thread"):
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    return out


def enter(env, scratch):
    """Take over the environment"""
    import decimal
    import gc
    import random
    import warnings

    import numpy as np

    if env.get("tz"):
        os.environ["TZ"] = env["tz"]
        time.tzset()
    if env.get("clock"):
        ctypes.CDLL(os.environ["HROSIM_TIME"]).sim_clock_offset(ctypes.c_long(int(env["clock"] - time.time())))
    os.makedirs(scratch, exist_ok=True)
    if env.get("cwd"):
        os.makedirs(os.path.join(scratch, env["cwd"]), exist_ok=True)
        os.chdir(os.path.join(scratch, env["cwd"]))
    else:
        os.chdir(scratch)
    if env.get("locale"):
        import locale

        try:
            locale.setlocale(locale.LC_ALL, env["locale"])
        except locale.Error:
            pass  # this system cannot build locales
    if env.get("decimal"):
        decimal.getcontext().prec = env["decimal"]
        decimal.getcontext().rounding = decimal.ROUND_UP
    if env.get("print"):
        np.set_printoptions(precision=env["print"], threshold=4, edgeitems=1, suppress=True)
    if env.get("pandas"):
        import pandas as pd

        pd.set_option("mode.copy_on_write", True)
        pd.set_option("display.precision", 2)
    if env.get("gc") == "off":
        gc.disable()
    elif env.get("gc") == "often":
        gc.set_threshold(3, 2, 2)
    if env.get("warn"):
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
    if env.get("random") is not None:
        random.seed(env["random"])
        np.random.seed(env["random"])
    os.umask(env.get("umask", 0o022))


def perform(step, scratch):
    """[kind of ending, picture with its order]"""
    os.makedirs(scratch, exist_ok=True)
    from sim import ops, pipes

    try:
        if step["op"] == "store":
            return ["ok", store(step["what"], step["spec"], scratch)]
        if step["op"] == "load":
            return ["ok", ordered(ops.picture(load(step["what"], step["spec"], step["files"], scratch)))]
    except Exception as exc:  # pylint: disable=broad-except
        return ["err", type(exc).__name__]
    o = ops.OPS[step["op"]]
    i = o.prepare(json.loads(json.dumps(step["spec"])))
    if "scratch" in i or step["op"] == "component":
        i["scratch"] = scratch
    pipes.seed_random(1)
    try:
        result = o.call(i)
        out = ["ok", ordered(ops.picture(result))]
        if step.get("views"):
            out.append([ordered(ops.picture(view())) for _, view in sorted(o.views(result).items())])
        return out
    except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
        return ["err", type(exc).__name__]


def store(what, spec, scratch):
    """The files that saving an object leaves behind"""
    from sim import diagrams as dg, weather as wx

    if what == "weather":
        wx.build(spec).to_file(os.path.join(scratch, "x.json"))
    elif what == "diagram":
        dg.build(spec).to_csv(os.path.join(scratch, "x.csv"))
    else:
        dg.build(spec).to_csv(os.path.join(scratch, "x.csv"), fmt=what)
    out = {}
    for name in sorted(os.listdir(scratch)):
        with open(os.path.join(scratch, name), "rb") as f:
            out[name] = f.read().decode("latin1")
    return out


def load(what, spec, files, scratch):
    """The object that is loaded from files (None: the object as it was built)"""
    from hrosailing.models import GriddedWeatherModel
    from hrosailing.polardiagram import from_csv

    from sim import diagrams as dg, weather as wx

    if files is None:
        return wx.build(spec) if what == "weather" else dg.build(spec)
    for name, content in files.items():
        with open(os.path.join(scratch, name), "wb") as f:
            f.write(content.encode("latin1"))
    if what == "weather":
        return GriddedWeatherModel.from_file(os.path.join(scratch, "x.json"))
    return from_csv(os.path.join(scratch, "x.csv"), fmt="hro" if what == "diagram" else what)


def ordered(x):
    """A picture in which the order of keys counts"""
    if isinstance(x, dict):
        return ["{}"] + [[k, ordered(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [ordered(v) for v in x]
    return x


if __name__ == "__main__":
    main()
