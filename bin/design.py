#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded results in bin/seed_results.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/bin/seed_results.json"))
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f)); rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not tried')} |")
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(?:SEEDTABLE|\| planted bug \|.*?)\n\n", "\n".join(rows) + "\n\n", s, count=1, flags=re.S)
open(p, "w").write(s)
