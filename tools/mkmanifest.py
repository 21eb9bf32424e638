"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(d) + "\n")
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                   "thorough_cmd": "python3 checks/%s.py --thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
