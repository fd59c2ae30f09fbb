"""C01: saved diagrams load back identical, over histories of saves and restarts."""
import json
import os
import unicodedata

from sim import diagrams as dg
from sim.core import h, record_exception, run_in_child

RUNS = {"quick": 1200, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run is a seeded history of saves, overwrites, loads, files written by other "
        "programs and process restarts over one directory tree; non-trivial: at least "
        "one diagram was saved and loaded. Distinct by digest of the whole run.")
STATE_MEASURE = "distinct (kind, shape, format, path form, overwritten-or-new) of a load"
REAL = "to_csv/from_csv of all diagram kinds, csv, numpy text I/O, kernel file system"
STUB = "none (disk seam transparent: short reads/writes and EINTR only)"
ASSUMPTIONS = [
    "the file system returns what was written unless the simulator injects a fault",
    "names of multi-sail files in one directory differ before their first dot "
    "(see KNOWN_FINDINGS.jsonl)",
]

DIRS = ["", "", "sub", "dotted.dir", "dotted.dir/v1.2", "spaces in it"]


def generate(rng, tier):
    n_paths = rng.randint(1, 5)
    paths, stems, neighbours = [], set(), set()  # neighbours hold no sails (see ASSUMPTIONS)
    for i in range(n_paths):
        d = rng.choice(DIRS)
        stem = rng.choice(["pd", "boat.v2", "my diagram", "größe", "a_sail_0x", "x"]) + str(i)
        if rng.random() < 0.3:
            stem = f"{i}" + stem
        ext = rng.choice([".csv", ".csv", ".csv", "", ".txt", ".tar.csv"])
        if paths and rng.random() < 0.12:  # a neighbour whose name differs only at its end
            other = rng.choice(paths)
            new = rng.choice([other + ".tmp", os.path.splitext(other)[0] + ".tmp", other + "~", other + ".bak",
                              os.path.splitext(other)[0] + ".txt", os.path.splitext(other)[0] + "_sail"])
            if new not in paths and not any(q.startswith(new) for q in paths):
                neighbours.add(len(paths))
                paths.append(new)
                continue
        if paths and rng.random() < 0.15:  # a name that differs from another one in case, spaces or spelling only
            d, stem = os.path.split(rng.choice([q for j, q in enumerate(paths) if j not in neighbours]))
            stem = stem.split(".")[0]
            stem = rng.choice([stem.upper(), stem.swapcase(), stem.replace(" ", "_"), stem.replace("_", " "), stem + " ",
                               " " + stem, stem + "_", unicodedata.normalize("NFD", stem), stem.replace("ö", "o")])
        key = (d, stem.split(".")[0])
        if key in stems:
            stem = f"u{i}" + stem
        stems.add((d, stem.split(".")[0]))
        paths.append(os.path.join(d, stem + ext))
    ops = []
    for _ in range(rng.randint(2, 12 if tier == "quick" else 30)):
        r = rng.random()
        p = rng.randrange(n_paths)
        how = rng.choice(["rel", "rel", "abs", "path", "relpath", "dot"])
        if r < 0.5:
            spec = dg.gen_any(rng)
            if p in neighbours and spec["kind"] == "multi":
                spec = dg.gen_table(rng)
            fmt = "hro"
            if spec["kind"] == "table":
                fmt = rng.choice(["hro", "hro", "orc", "opencpn", "array"])
            ops.append({"op": "save", "spec": spec, "path": p, "how": how, "fmt": fmt})
        elif r < 0.62:
            ops.append({
                "op": "external", "spec": dg.gen_table(rng), "path": p,
                "fmt": rng.choice(["orc", "opencpn", "array"]),
                "style": {"crlf": rng.random() < 0.3, "deg": rng.random() < 0.5,
                          "blank0": rng.random() < 0.4},
            })
        elif r < 0.85:
            ops.append({"op": "load", "path": p, "how": how})
        elif r < 0.93:
            ops.append({"op": "restart"})
        else:
            ops.append({"op": "resave", "path": p, "how": how, "to": rng.choice([i for i in range(n_paths) if i not in neighbours])})
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(["read", "write", "write"])
            if rng.random() < 0.5:
                faults.append([op, rng.randint(1, 8), "eintr", 0])
            else:
                faults.append([op, rng.randint(1, 8), "short", rng.choice([1, 7, 100, 4096])])
    return {"paths": paths, "ops": ops, "faults": faults}


def _segment(ctx, scn, ops, fs):
    """Executes ops in this process; fs: path -> {"content", "fmt"} (mutated)."""
    import hrosailing.polardiagram as pol

    res = ctx.res
    cwd = ctx.scratch

    def path_of(i, how):
        return dg.as_path(scn["paths"][i], how, cwd)

    def load(i, how, why):
        ent = fs[str(i)]
        pd = ctx.must(f"load-{ent['content']['kind']}-{ent['fmt']}",
                      pol.from_csv, path_of(i, how), ent["fmt"])
        d = dg.diff(ent["content"], dg.content(pd))
        res.count("loads")
        res.state([ent["content"]["kind"], h(ent["content"]), ent["fmt"], how])
        if d:
            res.fail(f"{why}:{ent['content']['kind']}:{ent['fmt']}", f"path {scn['paths'][i]}: {d}")
        return pd

    def save(pd, content, i, how, fmt):
        args = (fmt,) if content["kind"] == "PolarDiagramTable" and fmt != "hro" else ()
        ctx.must(f"save-{content['kind']}-{fmt}", pd.to_csv, path_of(i, how), *args)
        fs[str(i)] = {"content": content, "fmt": fmt}
        res.count("saves")
        res.count(f"save_{content['kind']}_{fmt}")
        if fmt != "hro":
            with open(os.path.join(cwd, scn["paths"][i]), encoding="utf-8", newline="") as f:
                text = f.read()
            try:
                d = dg.diff(content, dg.parse_external(text, fmt))
            except (ValueError, IndexError) as exc:
                d = f"not readable as {fmt}: {exc}"
            if d:
                res.fail(f"file-format:{fmt}", d)
        # the object that was saved is still what it was
        d = dg.diff(content, dg.content(pd))
        if d:
            res.fail(f"saved-object-changed:{content['kind']}", d)

    for op in ops:
        kind = op["op"]
        if kind == "save":
            content = dg.expected(op["spec"])
            pd = ctx.must(f"construct-{op['spec']['kind']}", dg.build, op["spec"])
            save(pd, content, op["path"], op["how"], op["fmt"])
            res.log("save", content["kind"], op["fmt"], scn["paths"][op["path"]], h(content))
            load(op["path"], op["how"], "round-trip")
        elif kind == "external":
            text = dg.external_file(op["spec"], op["fmt"], op["style"])
            with open(os.path.join(cwd, scn["paths"][op["path"]]), "w",
                      encoding="utf-8", newline="") as f:
                f.write(text)
            fs[str(op["path"])] = {"content": dg.expected(op["spec"]), "fmt": op["fmt"]}
            res.count("external_files")
            load(op["path"], "rel", "external-file")
        elif kind == "load":
            if str(op["path"]) in fs:
                load(op["path"], op["how"], "later-load")
                res.log("load", scn["paths"][op["path"]])
        elif kind == "resave":
            if str(op["path"]) in fs:
                ent = fs[str(op["path"])]
                pd = load(op["path"], op["how"], "later-load")
                if op["to"] != op["path"] or ent["fmt"] == "hro":
                    save(pd, ent["content"], op["to"], op["how"], "hro")
                    load(op["to"], "rel", "second-generation")
                    res.log("resave", scn["paths"][op["path"]], scn["paths"][op["to"]])


def execute(scn, ctx):
    res = ctx.res
    for p in scn["paths"]:
        os.makedirs(os.path.join(ctx.scratch, os.path.dirname(p)), exist_ok=True)
    segments, cur = [], []
    for op in scn["ops"]:
        if op["op"] == "restart":
            segments.append(cur)
            cur = []
        else:
            cur.append(op)
    segments.append(cur)
    fs = {}
    for k, seg in enumerate(segments):
        # every segment is a process of its own: only the files survive
        final = k == len(segments) - 1

        def body(seg=seg, final=final):
            ctx.res = type(res)()
            try:
                ctx.disk.begin({"rules": scn["faults"]})
                _segment(ctx, scn, seg, fs)
                for op, act, _ in ctx.disk.fired():
                    ctx.res.fault(f"{op}-{act}")
                ctx.disk.end()
                if final:
                    _segment(ctx, scn, [
                        {"op": "load", "path": int(i), "how": "abs"} for i in sorted(fs)
                    ], fs)
            except BaseException as exc:  # pylint: disable=broad-except
                ctx.disk.end()
                if not record_exception(ctx.res, exc):
                    raise
            return {"res": {"v": ctx.res.violations, "f": ctx.res.faults, "c": ctx.res.counts,
                            "s": sorted(ctx.res.states), "t": ctx.res.trace}, "fs": fs}

        st, out = run_in_child(body)
        if out is None:
            raise RuntimeError(f"segment died with {st}")
        r = out["res"]
        res.violations.extend(tuple(v) for v in r["v"])
        for key, n in r["f"].items():
            res.fault(key, n)
        for key, n in r["c"].items():
            res.count(key, n)
        res.states.update(r["s"])
        res.trace.extend(r["t"])
        if k:
            res.fault("process-restart")
        fs = json.loads(json.dumps(out["fs"]))
        if res.violations:
            break
    res.nontrivial = bool(res.counts.get("saves") and res.counts.get("loads"))


def shrink(scn):
    """Smaller specs."""
    for i, op in enumerate(scn["ops"]):
        if "spec" not in op:
            continue
        for spec in smaller_specs(op["spec"]):
            c = json.loads(json.dumps(scn))
            c["ops"][i]["spec"] = spec
            yield c


def smaller_specs(spec):
    if spec["kind"] == "table":
        if len(spec["wa"]) > 1:
            yield {**spec, "wa": spec["wa"][:-1], "bsps": spec["bsps"][:-1]}
            yield {**spec, "wa": spec["wa"][1:], "bsps": spec["bsps"][1:]}
        if len(spec["ws"]) > 1:
            yield {**spec, "ws": spec["ws"][:-1], "bsps": [r[:-1] for r in spec["bsps"]]}
            yield {**spec, "ws": spec["ws"][1:], "bsps": [r[1:] for r in spec["bsps"]]}
    elif spec["kind"] == "cloud" and len(spec["pts"]) > 1:
        n = len(spec["pts"]) // 2
        yield {**spec, "pts": spec["pts"][:n]}
        yield {**spec, "pts": spec["pts"][n:]}
    elif spec["kind"] == "multi" and len(spec["pds"]) > 1:
        yield {**spec, "pds": spec["pds"][:-1]}
        yield {**spec, "pds": spec["pds"][1:]}
