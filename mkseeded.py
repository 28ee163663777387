#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md; 'caught by' is what running the property's quick check on each patch showed"""
import json, os, re
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
s = open("DESIGN.md").read()
t = "<!-- SEEDED -->\n| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /SEEDED -->"
s = re.sub(r"<!-- SEEDED -->.*<!-- /SEEDED -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s); print(len(rows))
