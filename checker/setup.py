#!/usr/bin/env python3
"""Builds the harness and parses the specification."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C
os.makedirs(C.WORK, exist_ok=True)
print(C.build(), C.build_small())
r = subprocess.run(["java", "-cp", C.JARS, "tla2sany.SANY", "Trace.tla"], cwd=C.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode != 0:
    print(r.stdout)
sys.exit(r.returncode)
