#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("<!-- seeds -->")
open(p, "w").write(s[:i] + "<!-- seeds -->\n\n" + "\n".join(rows) + "\n")
