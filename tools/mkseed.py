"""Plants bugs in a copy of /repo, confirms them, keeps them in seeded/ and says which are caught.

usage: mkseed.py FILE.py [ID...]    FILE defines seeds with seed(id, prop, edits, needs, breaks, demo)
       mkseed.py --check [ID...]    runs the checks of the kept ones again
"""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = tempfile.mkdtemp(prefix="seedrepo-")
subprocess.run(["cp", "-a", "/repo/.", REPO], check=True)
atexit.register(shutil.rmtree, REPO)
BASE = "b3c6578"
DEMO_SH = '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore ' \
          'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = "import os, sys, tempfile\nos.chdir(tempfile.mkdtemp())\n"


def run(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def git(*a):
    return run("git", "-C", REPO, *a)


def undo():
    git("checkout", "--", ".")


def demo(d):
    return run("sh", os.path.join(d, "demo.sh"), cwd=REPO)


def failing():
    r = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "--timeout=100", "tests",
            cwd=REPO, env={**os.environ, "PYTHONPATH": REPO, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"})
    return {x.split(" - ")[0] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))}


def tests_ok():
    return sorted(failing() - BAD)


def check(prop):
    r = run("./check.sh", prop, "--no-evidence", cwd=HERE, env={**os.environ, "HROSIM_REPO": REPO})
    hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    line = [x for x in r.stdout.splitlines() if "runs]" in x]
    return hit, r.returncode, (line[0].strip()[:300] if line else r.stdout[-300:])


def seed(id_, prop, edits, needs, breaks, demo_py, only=None):
    if only and id_ not in only:
        return
    assert not git("status", "--porcelain").stdout.strip(), "repo not clean"
    d = os.path.join(HERE, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    try:
        for file, old, new in edits:
            p = os.path.join(REPO, "hrosailing", file)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(f"{id_}: text occurs {s.count(old)} times in {file}: {old[:60]!r}")
                return
            # the replaced lines are lines of the original repository
            b = git("blame", "-s", "--abbrev=7", "HEAD", "--", f"hrosailing/{file}").stdout.splitlines()
            first = s[:s.index(old)].count("\n")
            for k, line in enumerate(old.split("\n")):
                if line.strip() and line not in new.split("\n") and not b[first + k].lstrip("^").startswith(BASE[:6]):
                    print(f"{id_}: WARNING line not original: {line}")
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        patch = git("diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(PRE + demo_py.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        missing = tests_ok()
        bad = demo(d)
        hit = check(prop)
    finally:
        undo()
    good = demo(d)
    ok = not missing and bad.returncode != 0 and good.returncode == 0
    if bad.returncode == 124:
        ok = ok  # a hang counts as failing
    print(f"{id_} [{prop}] {'VALID' if ok else 'INVALID'} {'CAUGHT' if hit[0] else 'MISSED rc=%s' % hit[1]}: {hit[2]}")
    if missing:
        print("   tests broken:", missing[:3])
    if bad.returncode == 0:
        print("   demo passes with the patch")
    else:
        print("   demo with patch:", (bad.stderr or bad.stdout).strip().splitlines()[-1:])
    if not ok:
        shutil.rmtree(d)
    if good.returncode:
        print("   demo fails without the patch:", (good.stderr or good.stdout)[-500:])
    sys.stdout.flush()


def recheck(ids):
    out = {}
    for id_ in ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = os.path.join(HERE, "seeded", id_)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = git("apply", os.path.join(d, "patch.diff"))
        try:
            if r.returncode:
                print(id_, "does not apply", r.stderr)
                continue
            hit = check(prop)
            out[id_] = hit
        finally:
            undo()
        print(f"{id_} [{prop}] {'CAUGHT' if hit[0] else 'MISSED rc=%s' % hit[1]}: {hit[2][:160]}", flush=True)
    print(sum(h[0] for h in out.values()), "of", len(out), "caught")


if __name__ == "__main__":
    assert not git("status", "--porcelain").stdout.strip(), "repo not clean"
    BAD = failing()
    if sys.argv[1] == "--check":
        recheck(sys.argv[2:])
    else:
        only = set(sys.argv[2:])
        src = open(sys.argv[1], encoding="utf-8").read()
        exec(compile(src, sys.argv[1], "exec"), {"seed": lambda *a: seed(*a, only=only)})
