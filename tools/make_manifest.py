"""Writes MANIFEST.json: every property with a module in props/ is claimed."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    "C04": "runtime monitoring: before/after state snapshots around every call, with mutation during enumerations",
    "C05": "runtime monitoring of scheduled interleavings and stressed threads against solo runs in fresh processes",
    "C16": "model-based runtime monitoring of random operation histories",
    "C17": "model-based runtime monitoring of random operation histories",
    "C20": "runtime monitoring, exhaustive over all box shapes up to 25 numbers, against an independent geometry",
    "C24": "model-based runtime monitoring of random shell sessions",
    "C25": "model-based runtime monitoring of random shell sessions",
    "C26": "runtime monitoring of shell sessions under hostile input",
    "C27": "fault injection (interrupts at call and line boundaries) with runtime state monitoring",
    "C28": "runtime monitoring of real processes, three entry ways compared",
    "C29": "runtime monitoring of help texts against inspected signatures and observed default behaviour",
    "C30": "model-based runtime monitoring of random game histories",
}
TECH["C32"] = "runtime monitoring of counted work (sys.monitoring) under workloads with huge solution sets"
TECH["C34"] = "runtime monitoring of audit events, streams, process settings and traced memory around calls"
DEFAULT = "runtime monitoring of generated workloads against an independent oracle"
NA = {
    "C31": "liveness without a bound: a run that has not succeeded yet never "
           "shows a violation, so an oracle on finite executions cannot decide "
           "it; what a bounded run can show is part of C15",
}
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(l) for l in f]
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module("props." + pid.lower())
    note = ("Held on every execution observed; no claim about others. "
            + m.RULE[0].upper() + m.RULE[1:] + ".")
    if getattr(m, "ASSUMPTIONS", None):
        note += " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s quick" % pid,
        "thorough_cmd": "./check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECH.get(pid, DEFAULT),
        "level": m.LEVEL,
        "level_note": note,
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "./check --selftest",
               "checks": checks, "not_applicable": na,
               "notes": "Pure Python: nothing is compiled, the checks import "
               "/repo's working tree as it is. No hooks were needed."},
              f, indent=1)
    f.write("\n")
