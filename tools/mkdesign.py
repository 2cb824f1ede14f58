#!/usr/bin/env python3
"""Refreshes the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(r + "/seeded/*/meta.json"), key=lambda d: (json.load(open(d))["property"], d)):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
p = r + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
