#!/usr/bin/env python3
"""Replaces the table of planted changes in DESIGN.md by what seeded/*/meta.json says."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["<!-- seeds -->", "| change | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"]))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"; s = open(p).read(); t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
