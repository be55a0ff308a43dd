#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md (between the markers) from properties.jsonl, the specs and the last evidence"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; sp = f"{V}/checks/{i}/spec.py"
    out.append(f"\n### {i} — {p['title']}\n")
    if not os.path.exists(sp):
        m = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
        out.append(f"Not applicable: {m.get(i, '')}"); continue
    g = dict(REPO="/repo", VERIF=V); exec(compile(open(sp).read(), sp, "exec"), g)
    out.append(f"*{g.get('LEVEL', 'proof' if g.get('PROOFS') else 'exploration')}*: {g.get('LEVEL_NOTE', '')}.\n")
    for d in g.get("PROOFS", []):
        fn = ", ".join(d.get("functions", [])) or d.get("enforce") or "lemma over the contracts"
        how = "loop contracts" if d.get("loops") else ("unwound" if d.get("unwind") or d.get("unwindset") else "loop-free")
        x = f"- `{d['name']}` [{'B' if d.get('bounded') else 'P'}] {fn} — {'enforced contract' if d.get('enforce') else 'harness contract'}, {how}"
        if d.get("replace"): x += "; callees by contract: " + ", ".join(d["replace"])
        if d.get("bounded"): x += f"; bound: {d['bounded']}"
        if d.get("thorough_only"): x += "; thorough tier only"
        out.append(x)
    for o in g.get("ORACLES", []): out.append(f"- oracle [O] `{o['src'][0]}`, {o.get('secs', 8)} s quick, {o.get('thorough_secs', 240)} s + libFuzzer thorough")
    if g.get("ASSUMPTIONS"): out.append("- assumed: " + "; ".join(g["ASSUMPTIONS"]))
    if g.get("TRUSTED"): out.append("- trusted: " + "; ".join(g["TRUSTED"]))
D = open(V + "/DESIGN.md").read()
a, b = "<!-- properties: generated by lib/mkdesign.py -->\n", "<!-- end of generated part -->\n"
h, r = D.split(a); t = r.split(b)[1]
open(V + "/DESIGN.md", "w").write(h + a + "\n".join(out) + "\n" + b + t)
