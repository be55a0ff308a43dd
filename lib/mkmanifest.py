#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # id -> reason, for properties this family cannot address here
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    sp = f"{V}/checks/{p}/spec.py"
    if p in NA or not os.path.exists(sp):
        na.append(dict(property=p, reason=NA.get(p, "no check built yet"))); continue
    g = dict(REPO="/repo", VERIF=V)
    exec(compile(open(sp).read(), sp, "exec"), g)
    checks.append(dict(property=p, quick_cmd=f"python3 lib/run.py {p} --tier quick", thorough_cmd=f"python3 lib/run.py {p} --tier thorough",
        technique=g.get("TECHNIQUE", "executable contract checked against a reference by bounded exploration" if not g.get("PROOFS") else "function and loop contracts on the real code discharged by CBMC (goto-instrument --dfcc); executable form of the contract for failing inputs"),
        level=g.get("LEVEL", "proof" if g.get("PROOFS") else "exploration"), level_note=g.get("LEVEL_NOTE", "")))
r = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "82a1809..HEAD"], capture_output=True, text=True).stdout
hooks = [x.split()[0] for x in r.splitlines() if "DNSTABLE_CONTRACTS" in x][::-1]
m = dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="DNSTABLE_CONTRACTS",
    enable="goto-cc -DDNSTABLE_CONTRACTS with the harness defining the VPL_<loop> macros before including the source file; off, the annotations expand to nothing",
    source_commits=hooks), checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable; hooks", hooks)
