#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md"""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(verif + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["needs"]))
p = verif + "/DESIGN.md"
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("PLANTED_TABLE", t) if "PLANTED_TABLE" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
