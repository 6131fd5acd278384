#!/usr/bin/env python3
"""Writes MANIFEST.json from stages.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
st = json.load(open(V + "/stages.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    s = st.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "no check has been built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.py %s quick" % p["id"],
                   "thorough_cmd": "./check.py %s thorough" % p["id"],
                   "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check builds what it needs from /repo's working tree; check.py is the driver, stages.json says which monitors decide a property. No hooks in /repo are needed."},
          open(V + "/MANIFEST.json", "w"), indent=1)
