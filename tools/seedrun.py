#!/usr/bin/env python3
"""Applies every change of seeded/ to /repo in turn, builds, runs the tests, the demo and the property's check, and undoes it.
Usage: seedrun.py [id ...] ; prints one line per change."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


assert sh("git -C %s status --porcelain" % R).stdout.strip() == "", "unclean /repo"
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if sh("git -C %s apply %s/patch.diff" % (R, d)).returncode:
        print(i, "does not apply")
        continue
    try:
        b = sh("bash /opt/vp/build.sh").returncode
        t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        demo = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True).returncode
        c = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s" % (V, prop))
        caught = c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
        first = [l for l in c.stdout.splitlines() if "violation:" in l]
        print(i, prop, "build", b, t.stdout.strip().splitlines()[-1:], "demo", demo,
              "CAUGHT" if caught else "MISSED rc=%s %s" % (c.returncode, c.stdout[-600:]), (first or [""])[0][:220], flush=True)
    finally:
        sh("git -C %s checkout -- ." % R)
sh("bash /opt/vp/build.sh")
