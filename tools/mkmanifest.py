#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the library's real source with z3 deciding each assertion for all input values; "
        "counterexamples replayed")
NOTE = ("exhaustive over all contents within the enumerated shapes (component lengths, escape positions, coding "
        "schemes); states are symbolic paths, transitions are branch decisions, validated traces are path models "
        "replayed on the untouched library with identical observations; no claim beyond the shapes listed under "
        "bounds in the evidence")
PENDING = {}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vharness", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE,
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": PENDING.get(i, "harness not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks rewrite the library's source in memory while importing it from /repo. "
              "known_findings.json lists the defects repaired by fix: commits in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
