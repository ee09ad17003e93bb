#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        t, n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the crate through its public API, an interposed clock and allocator in the harness process, and sanitizer builds."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
