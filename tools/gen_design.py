#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.txt (output of seeded.py)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = V + "/seeded_results.txt"
if os.path.exists(p):
    for l in open(p):
        f = l.split()
        if len(f) > 1:
            res[f[0]] = f[1]
rows = ["| planted bug | check | needs | result |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "not run")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
