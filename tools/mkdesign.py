#!/usr/bin/env python3
# writes DESIGN.md: tools/DESIGN.in.md with the table of planted bugs
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|----|----|----|----|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), ", ".join([m["property"]] + m.get("also", []))))
fixed = sum(l.startswith("fixed:") for l in open(R + "/known_findings.txt"))
s = open(R + "/tools/DESIGN.in.md").read()
open(R + "/DESIGN.md", "w").write(s.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXED@@", str(fixed)))
