#!/usr/bin/env python3
"""regenerates MANIFEST.json from checks/config.py"""
import json, sys, os
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from checks.config import CHECKS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE}
for p, c in sorted(CHECKS.items()):
    m["checks"].append({
        "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": "bounded symbolic execution of the real code's LLVM IR with Z3 (bit-vectors), counterexamples replayed natively",
        "level": c.get("level", "model_checking"), "level_note": c["note"] if "note" in c else c["bounds"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
