#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import driver, checks, build

def setup():
    """Warms the object cache; every check rebuilds from /repo's current tree by itself anyway."""
    for pid in sorted(checks.CHECKS):
        for h, srcs, extra in checks.CHECKS[pid].get("builds", []):
            try:
                build.build_symbolic(h, srcs, extra)
                build.build_replay(h, srcs, extra)
            except build.BuildError as e:
                print("setup: %s: %s" % (h, str(e)[:500]))

def main():
    pid = sys.argv[1]
    if pid == "--setup": return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    r = driver.Run(pid, tier)
    try:
        checks.CHECKS[pid]["run"](r)
        r.assumptions = list(checks.COMMON_ASSUMPTIONS) + checks.CHECKS[pid].get("assumptions", [])
    except build.BuildError as e:
        print("ERROR: cannot build the code under test\n%s" % e)
        sys.exit(2)
    sys.exit(r.finish())
main()
