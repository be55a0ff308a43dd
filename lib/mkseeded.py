#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/results.json (id -> how the check caught it)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: R = json.load(open(V + "/seeded/results.json"))
except FileNotFoundError: R = {}
rows = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {str(m['what_it_breaks']).replace('|', '/')} | {R.get(i, '?')} |")
D = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded: table -->\n", "<!-- end seeded -->\n"
h, r = D.split(a); t = r.split(b)[1]
open(V + "/DESIGN.md", "w").write(h + a + "\n".join(rows) + "\n" + b + t)
