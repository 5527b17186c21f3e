#!/usr/bin/env python3
"""Nothing needs building in advance: check that the tools are there and the specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build("std")
r = subprocess.run(["java", "-cp", core.TLC_CP, "tla2sany.SANY", "Trace.tla"], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or "rror" in r.stdout.replace("errors", ""):
    print(r.stdout)
    sys.exit(1)
print("ready")
