#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md: python3 tools/design.py"""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded -->"
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (json.load(open("%s/seeded/%s/meta.json" % (V, d)))["property"], d)):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], *(m[k].replace("|", "\\|").replace("\n", " ") for k in ("needs", "what_it_breaks"))))
p = V + "/DESIGN.md"
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
