#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Randomised search: violations on the explored schedules are found and replayable, absence is not proved. Trusts the simulated kernel (sim/os.cpp), "
        "the reference models in the scenarios, and that one process with switches only at library/system calls represents real executions.")
checks = []
for i in ids:
    if i not in P: continue
    sc = ", ".join(s["scenario"] for s in P[i]["plan"])
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults (scenarios: %s)" % sc,
        "level": "exploration", "level_note": NOTE + (" " + P[i]["note"] if P[i].get("note") else "")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo. The checks compile /repo's sources unchanged and redirect the system calls of the object files to the simulator with objcopy --redefine-syms; the cycle counter is replaced through a force-included header (sim/pre.h).", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check has been built for it yet")} for i in ids if i not in P],
     "notes": "Known findings and repaired defects: known_findings.json. See DESIGN.md."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
