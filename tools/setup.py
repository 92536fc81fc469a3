#!/usr/bin/env python3
"""Sanity check of the toolchain: nothing persists from here, every check builds what it needs."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import JARS, SPEC
bad = 0
for tool in (["g++", "--version"], ["java", "-version"]):
    bad |= subprocess.run(tool, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, capture_output=True, text=True)
    if r.returncode:
        print("specification does not parse:", f, r.stdout[-800:])
        bad = 1
print("ok" if not bad else "broken tool chain")
sys.exit(bad)
