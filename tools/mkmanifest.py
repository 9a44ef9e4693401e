#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a module in fv/props is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from fv.main import constant
REASONS = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "fv", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid, "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "property-based testing (Hypothesis): " + constant(pid, "ORACLE", "generated cases against an independent oracle"),
            "level": "exploration",
            "level_note": "Generated-input search with shrinking; the evidence file counts what was explored. Trusts numpy/scipy/sympy/h5py as reference arithmetic and the stated rounding tolerances."})
    else:
        na.append({"property": pid, "reason": REASONS.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check copies /repo/funpy into a scratch directory, compiles its Cython modules and drives the public functions."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
