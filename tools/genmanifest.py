#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "not_applicable.json")))
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of /repo's current source with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": c.get("note", "bounded: holds for every value and schedule within the bounds listed in the evidence file"),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: machinery under construction")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
