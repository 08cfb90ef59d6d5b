#!/usr/bin/env python3
"""Prepares a fresh sandbox: checks that the tools are there and warms the build cache."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import core
for t in ("java", "go"):
    if not shutil.which(t, path=core.go_env()["PATH"]):
        sys.exit("missing: " + t)
for f in core.TLA_JARS.split(":"):
    if not os.path.exists(f):
        sys.exit("missing: " + f)
with core.Scratch() as s:
    core.build_harness(s)
print("ready")
