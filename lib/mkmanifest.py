#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import checks
ids = [json.loads(x)["id"] for x in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": c.get("technique", "TLA+ specification model-checked with TLC; trace validation of recorded calls of the real code by TLC"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "The specification's own design model is checked exhaustively for small constants; every recorded call of the real code is validated by TLC against the specification. Trusts TLC, the recording harness and the compiler; covers the inputs the harness drives."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "not built yet")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
