#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks (run by hand when the set of checks changes)"""
import json, os
from sa import registry
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m sa.facts",
     "checks": [], "not_applicable": [],
     "notes": "All checks are static analyses over facts that a libTooling extractor (tool/mznsa.cpp) takes from the "
              "preprocessed, type-checked sources of /repo's working tree; nothing of the project is executed. "
              "No hooks are compiled into /repo."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": tech, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
