#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from a file of lines "<seed>: <ids>"."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.strip().split(":", 1) for l in open(sys.argv[1]) if ":" in l)
rows = ["| planted change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), ", ".join(caught.get(d, "").split()) or "missed"))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
