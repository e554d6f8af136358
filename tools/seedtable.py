#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["what_it_breaks"].strip().rstrip(".").replace("\n", " ").replace("|", "/"), d["property"]))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
