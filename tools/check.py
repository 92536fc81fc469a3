#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property id>
Exit 0: held on everything explored; 1: VIOLATION lines; 2: the check could not run."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks_core, checks_kokkos, checks_fv

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    """(finding text, signature) of the recorded findings of a property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(3), m.group(2)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn = getattr(checks_core, pid, None) or getattr(checks_kokkos, pid, None) or getattr(checks_fv, pid, None)
    if fn is None:
        print("no check for", pid)
        return 2
    ctx = Ctx(pid, tier, seed)
    ctx.known = known(pid)
    try:
        fn(ctx)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        ctx.extra["error"] = str(e)[:2000]
        if not ctx.violations:
            ctx.evidence(assumptions=ASSUME)
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    ctx.evidence(assumptions=ASSUME + getattr(fn, "assume", []))
    for what, sig in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for what, path in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not ctx.violations and not os.environ.get("KEEP"):
        for e in os.listdir(ctx.dir):
            if e.startswith("bin_") or e.startswith("tlc_"):
                shutil.rmtree(os.path.join(ctx.dir, e), ignore_errors=True)
    ctx.log("%s: %d states, %d transitions, %d traces, %d steps compared" % (
        "VIOLATED" if ctx.violations else "held", ctx.states, ctx.transitions, ctx.traces, ctx.steps))
    return 1 if ctx.violations else 0


ASSUME = ["the compiled behaviour under g++ -O1 with ASan/UBSan represents the library's",
          "the projection in the driver (harness/) shows every part of the state the property speaks about"]
if __name__ == "__main__":
    sys.exit(main())
