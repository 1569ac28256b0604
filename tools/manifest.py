#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks_table import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p not in CHECKS:
        na.append({"property": p, "reason": "its check isn't built yet"})
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": c.get("technique", "stateful property-based testing against a reference model"),
                   "level": c.get("level", "exploration"), "level_note": c.get("note", c["rule"])})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py lib/checks_table.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
