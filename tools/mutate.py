"""Small changes all over the library, to find what no check looks at (a development aid, not a check).

usage: mutate.py OUT.jsonl [--workers n] [--seed n] [--hours h] [--only file.py]

Every mutant lives in a copy of the repository under /tmp; mutants that the existing tests notice are left
out, for the others the quick checks of the properties anchored in the file run until one reports it.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "core/data.py": "C16 C06 C18 C12 C09", "core/computing.py": "C19 C10 C13 C12", "core/statistics.py": "C10 C17",
    "core/constants.py": "C06 C12",
    "cruising/basics.py": "C13 C09", "models/globe_model.py": "C09", "models/influencemodel.py": "C17 C19 C10 C13 C09",
    "models/weather_model.py": "C11 C05 C12 C09 C08", "pipeline/expander.py": "C12 C19 C17",
    "pipeline/extensions.py": "C17 C19 C07 C09", "pipeline/pipeline.py": "C19 C10 C07",
    "pipeline/quality_assurance.py": "C17 C10 C19", "polardiagram/_basepolardiagram.py": "C15 C09 C08",
    "polardiagram/_polardiagramcurve.py": "C01 C15 C03 C02 C04 C09", "polardiagram/_polardiagrammultisails.py": "C01 C15 C02 C03 C04 C09",
    "polardiagram/_polardiagrampointcloud.py": "C15 C01 C03 C04 C02 C09", "polardiagram/_polardiagramtable.py": "C15 C01 C03 C04 C02 C09",
    "polardiagram/_reading.py": "C01 C03 C04 C02", "processing/datahandler.py": "C06 C04 C17", "processing/filter.py": "C10 C17 C19",
    "processing/imputator.py": "C18 C17 C19", "processing/injector.py": "C17 C19 C10", "processing/interpolator.py": "C17 C08 C15",
    "processing/neighbourhood.py": "C17 C08", "processing/regressor.py": "C17 C07", "processing/sampler.py": "C14 C17",
    "processing/smoother.py": "C20 C19 C17 C09", "plotting/projections.py": "C21", "processing/weigher.py": "C17 C10 C19 C09",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is", ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
        ast.FloorDiv: "/", ast.Mod: "+"}


RUNS = {"C03": 60, "C08": 120, "C02": 250, "C05": 150, "C07": 100, "C09": 400, "C19": 400, "C13": 700, "C01": 600,
        "C15": 800, "C12": 2000, "C21": 500}


def mutants(path):
    src = open(path, encoding="utf-8").read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    def put(node, new):
        a, b = span(node)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    tree = ast.parse(src)
    raising = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__"):
            raising.update(ast.walk(n))
    out = []
    for n in ast.walk(tree):
        if n in raising and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append((n.lineno, put(n, f"({text(n.left)} {SWAP[type(n.ops[0])]} {text(n.comparators[0])})"), "compare"))
        elif isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            out.append((n.lineno, put(n, f"({text(n.left)} {SWAP[type(n.op)]} {text(n.right)})"), "operator"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n.lineno, put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")"), "andor"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((n.lineno, put(n, f"({text(n.operand)})"), "unary"))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((n.lineno, put(n, str(n.value + 1)), "constant"))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n.lineno, put(n, str(not n.value)), "bool"))
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            out.append((n.lineno, put(n.test, "True"), "if-true"))
            out.append((n.lineno, put(n.test, "False"), "if-false"))
        elif isinstance(n, ast.Raise):
            out.append((n.lineno, put(n, "pass"), "no-raise"))
        elif isinstance(n, ast.Continue):
            out.append((n.lineno, put(n, "break"), "break"))
        elif isinstance(n, ast.Break):
            out.append((n.lineno, put(n, "continue"), "continue"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n.lineno, put(n, "pass"), "no-call"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) or not isinstance(tgt, (ast.Name, ast.Tuple)):
                out.append((n.lineno, put(n, "pass"), "no-assignment"))
            elif isinstance(tgt, ast.Name) and tgt.id in text(n.value):
                out.append((n.lineno, put(n, "pass"), "no-assignment"))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                out.append((n.lineno, put(n, text(f.value)), "no-copy"))
            elif isinstance(f, ast.Attribute) and f.attr == "array":
                out.append((n.lineno, put(f, "np.asarray"), "no-copy"))
            elif isinstance(f, ast.Name) and f.id in ("list", "dict", "tuple", "sorted", "set", "abs", "float", "int", "deepcopy") and len(n.args) == 1:
                out.append((n.lineno, put(n, text(n.args[0])), f"no-{f.id}"))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                out.append((n.lineno, put(n.lower, ""), "slice"))
            if n.upper is not None:
                out.append((n.lineno, put(n.upper, ""), "slice"))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            a = starts[n.lineno - 1] + n.col_offset
            b = span(n.type)[1]
            out.append((n.lineno, (raw[:a] + b"except ZeroDivisionError" + raw[b:]).decode(), "except"))
    seen, uniq = set(), []
    for line, new, kind in out:
        try:
            key = ast.dump(ast.parse(new))
        except SyntaxError:
            continue
        if key in seen or key == ast.dump(tree):
            continue
        seen.add(key)
        uniq.append((line, new, kind))
    return src, uniq


def run(cmd, repo, limit, **env):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=limit, check=False,
                              env={**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
                                   "HROSIM_REPO": repo, **env}, cwd=env.get("PWD", repo))
    except subprocess.TimeoutExpired:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--hours", type=float, default=1)
    ap.add_argument("--only")
    ap.add_argument("--kinds")
    args = ap.parse_args()
    snap = tempfile.mkdtemp(prefix="mut-") + "/repo"  # editing may go on in /repo, too
    shutil.copytree("/repo", snap)
    todo = []
    for f in PROPS:
        if args.only and not f.endswith(args.only):
            continue
        _, ms = mutants(f"{snap}/hrosailing/{f}")
        ms = [m for m in ms if not args.kinds or m[2] in args.kinds.split(",")]
        todo += [(f, i, m) for i, m in enumerate(ms)]
    random.Random(args.seed).shuffle(todo)
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out, encoding="utf-8"):
            d = json.loads(line)
            done.add((d["file"], d["line"], d["kind"], d["change"]))
    print(len(todo), "mutants,", len(done), "done", flush=True)
    end = time.time() + args.hours * 3600
    lock = threading.Lock()
    verif = tempfile.mkdtemp(prefix="mutverif-")  # editing may go on in HERE
    subprocess.run(f"cp -a {HERE}/check.sh {HERE}/sim {HERE}/KNOWN_FINDINGS.jsonl {verif}/; mkdir -p {verif}/evidence/replay",
                   shell=True, check=True)

    def work():
        base = tempfile.mkdtemp(prefix="mut-")
        repo = os.path.join(base, "repo")
        shutil.copytree(snap, repo)
        bad = known_failures(repo)
        while time.time() < end:
            with lock:
                if not todo:
                    break
                f, _, (line, new, kind) = todo.pop()
            p = os.path.join(repo, "hrosailing", f)
            old = open(f"{snap}/hrosailing/{f}", encoding="utf-8").read()
            a, b = old.splitlines(), new.splitlines()
            change = [y.strip() for x, y in zip(a, b) if x != y][:1] or [b[-1]]
            if (f, line, kind, change[0]) in done:
                continue
            open(p, "w", encoding="utf-8").write(new)
            try:
                if failures(repo) != bad:
                    verdict = {"by": "tests"}
                else:
                    verdict = {"by": None}
                    for prop in PROPS[f].split():
                        r = run(["./check.sh", prop, "--no-evidence", "--jobs", "2",
                                 *(["--runs", str(RUNS[prop])] if prop in RUNS else [])], repo, 400, PWD=verif)
                        if r is None or r.returncode not in (0, 1):
                            verdict = {"by": None, "broken": prop, "out": "" if r is None else (r.stdout + r.stderr)[-500:]}
                            break
                        if r.returncode == 1:
                            verdict = {"by": prop}
                            break
            finally:
                open(p, "w", encoding="utf-8").write(old)
            with lock, open(args.out, "a", encoding="utf-8") as o:
                o.write(json.dumps({"file": f, "line": line, "kind": kind, "change": change[0],
                                    "was": a[line - 1].strip(), **verdict}) + "\n")
        shutil.rmtree(base)

    def failures(repo):
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "--timeout=60", "tests"], repo, 200)
        if r is None:
            return None
        return sorted(x.split(" - ")[0] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))

    def known_failures(repo):
        a, b = failures(repo), failures(repo)
        if a != b:
            print("tests are not stable", a, b)
        return b

    ts = [threading.Thread(target=work) for _ in range(args.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(verif)
    shutil.rmtree(os.path.dirname(snap))


if __name__ == "__main__":
    sys.exit(main())
