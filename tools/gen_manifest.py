#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Generated-input search with Hypothesis against an explicit oracle: holds on every "
        "generated case (fixed by VERIF_SEED), says nothing about inputs outside the generators. "
        "Floating-point comparisons use the stated tolerances; shrunk failures are replayable.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    mod = os.path.join(HERE, "pbt", "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        na.append(dict(property=pid, reason="no check built yet"))
        continue
    tech = "property-based testing (Hypothesis) against a reference model"
    for l in open(mod):
        if l.startswith("TECHNIQUE = "):
            tech = l[len("TECHNIQUE = "):].strip().strip('"')
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 run.py {pid} --tier quick",
        thorough_cmd=f"python3 run.py {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=tech, level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks)
if na:
    m["not_applicable"] = na
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
