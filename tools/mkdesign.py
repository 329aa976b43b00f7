#!/usr/bin/env python3
"""refresh the table of seeded changes in DESIGN.md from seeded/*/meta.json"""
import os, json, re
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
MISSED = {"p08-nested-finish", "p09-early-release"}
rows = ["| change | property | what it needs to show | when first planted |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), "missed, check strengthened" if i in MISSED else "caught"))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s.replace("@@SEEDS@@", a + "\n" + b)
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
