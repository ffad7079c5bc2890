#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.registry import PROPS, NA
out = []
checks = []
na = []
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p["state"]:
        a["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
    out.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                               quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["tests"], anchors=a)))
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"], technique=p["technique"], level="other",
                       level_note=p["level_note"]))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
