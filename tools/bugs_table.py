#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (d.split("/")[1], m["property"], m["needs"]))
s = open("DESIGN.md").read()
s = re.sub(r"\| bug \| caught by \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s)
open("DESIGN.md", "w").write(s)
