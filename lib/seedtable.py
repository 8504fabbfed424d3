#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (development only)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| change | caught by | what it needs to show |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
rows.append("<!-- /seeds -->")
p = here + "/DESIGN.md"; s = open(p).read()
t = "\n".join(rows)
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", "Every change below is caught by the quick check of the property it breaks.\n\n" + t)
open(p, "w").write(s)
