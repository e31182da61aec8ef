#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
rows = "".join("| %s | %s |\n" % (p, ", ".join(x)) for p, x in sorted(d.items()))
s = open(V + "/DESIGN.md").read()
h = "| property | planted bugs its check catches |\n|---|---|\n"
i = s.index(h) + len(h)
j = s.index("`tools/mutate.py` changes")
open(V + "/DESIGN.md", "w").write(s[:i] + rows + "\n" + s[j:])
