#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PR, NA
PR.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in PR:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"], thorough_cmd="python3-vt check.py %s thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PR if p["technique"]]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA], notes="no hooks in /repo; see DESIGN.md")
with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(NA), "not applicable")
