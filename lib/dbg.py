#!/usr/bin/env python3
"""dbg.py ID PROOF [-f] [-t]: run one proof, print failing obligations"""
import sys, tempfile, json
sys.path.insert(0, __file__.rsplit("/",1)[0])
import run
pid, name = sys.argv[1:3]
spec, cdir = run.load_spec(pid)
w = tempfile.mkdtemp(prefix="vpd-")
for d in spec["PROOFS"]:
    if name not in ("all", d["name"]): continue
    P = run.Proof(d, spec, cdir, w)
    if "-f" in sys.argv:
        fb = d.get("fallback", {})
        r = P.build_and_run("f", False, fb.get("unwind", d.get("unwind") or 8), False, list(d.get("defs", [])) + list(fb.get("defs", ["VP_BOUNDED"])), fb.get("timeout", 150))
    else:
        r = P.build_and_run("p", bool(d.get("loops")), d.get("unwind"), True, d.get("defs", []), d.get("timeout", 200), extra=["--trace"] if "-t" in sys.argv else ())
    print(d["name"], r["status"], "n=", r.get("n"), "time=%.1f solver=%.1f" % (r.get("time",0), r.get("solver_s",0)), r.get("detail","")[-1500:])
    for f in r.get("fails", []):
        print("   ", f["property"], f["description"], f["loc"])
        if "-t" in sys.argv and f.get("trace"):
            for l in run.trim_trace(f["trace"])[-300:]: print("        ", l)
import shutil; shutil.rmtree(w)
