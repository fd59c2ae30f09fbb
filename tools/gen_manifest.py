"""Writes MANIFEST.json from properties.jsonl and the checks below sim/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": T + "seeded save/load/restart histories on a simulated disk, against a reference model",
    "C02": T + "seeded disk faults during saves (errors, full disk, short writes), outcome check after each",
    "C03": T + "process death at seeded and at all bytes of a save, torn and zeroed tails, load in a new process",
    "C04": T + "seeded read faults, every outcome compared with the undisturbed read",
    "C05": T + "seeded disk faults and crashes around saving weather, against a reference model",
    "C06": T + "seeded instrument streams over a lossy link, against an independent log reader",
    "C07": T + "seeded histories of pipeline runs with failing components, against freshly built pipelines",
    "C08": T + "seeded thread schedules (random and priority based) under a cooperative scheduler, against sequential runs",
    "C09": T + "seeded operation histories with failing calls, deep snapshots of all inputs",
    "C10": T + "seeded pipeline runs under a simulated jumping clock, statistics recomputed by recorders",
    "C11": T + "seeded outages and garbled answers of weather providers, against an independent lookup",
    "C12": T + "seeded record streams with losses and provider outages, against an independent join",
    "C13": T + "seeded voyages through weather outages and calms with a step bound, against an independent time integration",
    "C14": T + "adversarial random number sources with a step bound, geometric oracle",
    "C15": T + "seeded edit/save/crash/restart histories, against a reference model",
    "C16": T + "seeded histories of table operations with rejected calls, against a reference model",
    "C17": T + "seeded reuse histories with failing uses, against fresh components",
    "C18": T + "seeded loss patterns of measured values, against a reference model",
    "C19": T + "seeded pipeline runs with recording and failing stages, exactly-once check of the recorded history",
    "C20": T + "seeded irregular logs through a faulty link and clock, reused smoothers against an independent construction",
    "C21": T + "seeded histories of plots on shared axes with failing and interrupted plots, against a reference model of what is drawn",
    "C22": T + "same operations in processes with seeded environments, clocks and histories, compared with a plain process",
    "C23": T + "seeded reordering, delay and regrouping of records, logs and columns, against the delivery in order",
}
NOTE = {}
NA_PURE = ("pure function of its arguments: no concurrency, time, I/O, randomness or multi-party behaviour "
           "for a schedule or fault to act on, so simulation could only do plain input testing")
NA = {
    "N01": "Converting wind is a " + NA_PURE + ".",
    "N02": "Globe models are a " + NA_PURE + ".",
    "N03": "Interpolation of one boat speed is a " + NA_PURE + ".",
    "N04": "Course optimisation on a given diagram is a " + NA_PURE + ".",
    "N05": "Fuzzy terms and weigher formulas are a " + NA_PURE + ".",
    "N06": "Curve fitting is a " + NA_PURE + " (the fit itself is scipy's).",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    src = os.path.join(HERE, "sim", "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not os.path.exists(src):
        na.append({"property": i, "reason": "No check has been built for it yet."})
    else:
        text = open(src, encoding="utf-8").read()
        level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in text else "exploration"
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": TECH[i], "level": level,
            "level_note": NOTE.get(i, "Seeded search, not exhaustive: it shows that no explored run violates the "
                                      "property. The code under test is the real code in /repo; trusted are the "
                                      "simulator, the reference model and third-party libraries (see the check's "
                                      "evidence for what was stubbed and assumed)."),
        })
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: all seams are outside of it (LD_PRELOAD disk shim, sys.monitoring scheduler and "
                "step budget, injected components, random sources and clocks). See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
