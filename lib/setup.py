#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead of time (each check builds from /repo's tree); verify that the tools are there"""
import shutil, sys, os
miss = [t for t in ("clang", "goto-cc", "goto-instrument", "cbmc") if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
if miss: print("missing:", miss); sys.exit(1)
print("ok")
