#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks are property-based tests or fuzzers built from /repo's working tree. bin/check.py --replay FILE replays a violation."}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"], "technique": c["technique"],
        "level": c.get("level", "exploration"), "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
