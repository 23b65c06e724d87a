"""Rewrites the table of planted bugs in DESIGN.md."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % n))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(?s)<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n%s\n<!-- /table -->" % "\n".join(rows), s)
open(V + "/DESIGN.md", "w").write(s)
