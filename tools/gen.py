#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
