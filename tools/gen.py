#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NA

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS + NA:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["for_all"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], state=p.get("state", []), observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
for p in PROPS:
    sys.path.insert(0, ROOT)
    import importlib
    m = importlib.import_module("checks." + p["id"])
    man["checks"].append(dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"],
                              thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                              technique=m.TECHNIQUE, level="other", level_note=p["level"]))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "n/a")
