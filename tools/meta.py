#!/usr/bin/env python3
"""Writes properties.jsonl, rules/registry.json and MANIFEST.json from props/*.json-like tables in props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import P, NA

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
json.dump({p["id"]: {"rule": p["rule"], "explain": p["explain"], "configs": p.get("configs", True)} for p in P},
          open(os.path.join(H, "rules", "registry.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 engine/db.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in P],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
