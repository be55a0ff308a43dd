#!/usr/bin/env python3
"""writes lib/vp_loops.h: an empty default for every loop-contract attachment point found in /repo"""
import re, subprocess, os
names=set()
for root in [os.environ.get("VP_REPO","/repo")+x for x in ("/libmy","/dnstable","/src")]:
    for f in os.listdir(root):
        if f.endswith((".c",".h")):
            names |= set(re.findall(r"^\s*(VP[LG]_\w+)", open(root+"/"+f, errors="replace").read(), re.M))
o="/* defaults: no loop contract (generated by mkloops.py) */\n"
for n in sorted(names): o+=f"#ifndef {n}\n# define {n}\n#endif\n"
open(os.path.dirname(os.path.abspath(__file__))+"/vp_loops.h","w").write(o)
