"""Write MANIFEST.json and known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTE = ("Seeded search, no exhaustive coverage: assurance is as good as the generators (DESIGN.md). Trusted: parce 0.33 (its known "
        "upstream races are kept out, DESIGN.md), Python, the reference models in /verif/sim/ref and /verif/checks.")
TECH = {
 "C01": "deterministic simulation: editing sessions with seeded edit/thread interleavings, oracle fresh reading",
 "C02": "deterministic simulation: broken-text histories (fault: torn, half-typed, corrupted text), healing, background reader",
 "C03": "deterministic simulation: seeded histories of tree operations with injected failures against a plain list model",
 "C04": "deterministic simulation: edit histories with interleavings, positions and lookups against plain scans",
 "C05": "deterministic simulation: histories of model modifications written back, oracle fresh reading and text diff",
 "C06": "deterministic simulation with fault injection: an exception at any line of an operation, all-or-nothing and recovery checked",
 "C07": "deterministic simulation: sessions of operations with selections against a per-node reference",
 "C08": "deterministic simulation: sessions of transpositions against an independent music reference model",
 "C09": "deterministic simulation: sessions of rel/abs conversions against an independent music reference model",
 "C10": "deterministic simulation: sessions of rhythm operations on reused tools against an independent reference model",
 "C11": "deterministic simulation with fault injection: simulated file system (errors, races, mtime clock) against a reference resolver",
 "C12": "deterministic simulation: sessions over documents and simulated files against an independent length computation",
 "C13": "deterministic simulation: seeded line-level preemption of real threads, oracle the same work run alone",
 "C14": "deterministic simulation: seeded walk/modify histories against a plain list model",
 "C15": "deterministic simulation with fault injection: simulated file system (open/read errors, short reads, changes) against the file's bytes",
 "C16": "deterministic simulation with fault injection: histories of two pitch processors on a live document against a reference",
 "C18": "deterministic simulation with fault injection: sessions of MIDI keys in a live document, reused key signatures, against a reference",
 "C19": "deterministic simulation with fault injection: reformatting sessions with reused and interrupted indenters against an independent layout oracle",
 "C20": "deterministic simulation with fault injection: histories of property changes, write-backs and interruptions against plain data",
 "C21": "deterministic simulation: seeded editing histories and background reading schedules against a table of constructs and token conservation",
 "C22": "deterministic simulation with fault injection: histories of building, rearranging, typing and writing back, against plain data",
}
NA = {
 "C17": "Pure conversions of one value: nothing to schedule or to fail; deterministic simulation does not apply.",
}
checks, na = [], []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        cmd = "%s -m sim.runner %s --tier " % (PY, i)
        checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": TECH[i],
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
doc = {"version": 1, "setup_cmd": PY + " -m sim.selftest", "checks": checks, "not_applicable": na,
       "notes": "No hooks were needed in /repo: threads, locks and files go through seams that exist in parce and Python "
                "(sim/sched.py, sim/env.py). Any run is repeatable: python -m sim.runner ID --replay FILE."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); 
FIXED = {}
for line in open(os.path.join(V, "tools", "fixes.txt")):
    if line.strip():
        prop, subject = line.strip().split("\t")
        FIXED[subject] = prop
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split("\t")
    if s.startswith("fix: "):
        if s[5:] not in FIXED:
            print("unlisted fix:", s[5:]); continue
        for p in FIXED[s[5:]].split(","):
            out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
path = os.path.join(V, "known_findings.json")
try:
    old = json.load(open(path))
except FileNotFoundError:
    old = {"findings": []}
json.dump({"findings": old["findings"], "fixed": out}, open(path, "w"), indent=1)
