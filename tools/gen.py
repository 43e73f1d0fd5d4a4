#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["tests"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
           checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                        technique=p["technique"], level="other", level_note=p["note"]) for p in PROPS],
           not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA], notes=NOTES)
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
