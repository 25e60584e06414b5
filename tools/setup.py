#!/usr/bin/env python3
"""Checks that the tools are there and warms the Go build cache; checks build for themselves anyway."""
import os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from lib import vf
c = vf.Ctx("C00", "quick", 1)
try:
    for p in sorted(os.listdir(os.path.join(V, "harness", "cmd"))):
        c.build(p)
    c.build_cli()
    print("setup ok")
finally:
    shutil.rmtree(c.work, ignore_errors=True)
