"""Rewrites the numbers of the table of costs in DESIGN.md from the evidence of
the last runs.  tools/costs.py [directory of evidence]"""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
s = open(V + "/DESIGN.md").read()
for i in range(1, 21):
    c = "C%02d" % i
    d = json.load(open("%s/%s.json" % (E, c)))
    cov = d["coverage"]
    runs, wall = cov["evaluations"], d["wall_s"]
    s = re.sub(r"(?m)^\| %s \| [^|]*\| [^|]*\|" % c,
               lambda m: "| %s | %d, %d | %s |" % (c, runs, wall, format(int(runs / wall * 3600) // 1000 * 1000, ",").replace(",", " ")), s)
open(V + "/DESIGN.md", "w").write(s)
