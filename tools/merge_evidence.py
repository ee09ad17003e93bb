#!/usr/bin/env python3
"""merge_evidence.py DIR ID PART...: joins the evidence of several builds into DIR/ID.json."""
import json, os, sys
d, i, parts = sys.argv[1], sys.argv[2], sys.argv[3:]
out = None
for p in parts:
    f = os.path.join(d, i + p + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    os.remove(f)
    if out is None:
        out = e
        out["coverage"]["builds"] = [p.strip(".")]
        continue
    a, b = out["coverage"], e["coverage"]
    a["builds"].append(p.strip("."))
    for k, v in b.items():
        if k in ("evaluations", "distinct_nontrivial") or k.startswith("n_"):
            a[k] = a.get(k, 0) + v
        elif k == "samples":
            a[k] = (a.get(k, []) + v)[:10]
        elif k == "notes":
            a[k] = a.get(k, []) + v
    out["wall_s"] += e["wall_s"]
    out["violations"] = out.get("violations", 0) + e.get("violations", 0)
json.dump(out, open(os.path.join(d, i + ".json"), "w"))
