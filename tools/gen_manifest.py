"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES[i]
    if "na" in n:
        na.append({"property": i, "reason": n["na"]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i} --tier quick",
        "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
        "technique": n.get("technique", "contract-based deductive verification: obligations generated from the current source by symbolic interpretation against sidecar contracts, discharged by z3/cvc5"),
        "level": n.get("level", "proof"),
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy, scipy'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Each check parses /repo/lattpy anew, generates and discharges the obligations, and executes the same contracts on the real code as a bounded cross-check."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
