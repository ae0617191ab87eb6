#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's working tree"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.setrecursionlimit(20000)
t0 = time.time()
import common
import registry

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    sys.exit(registry.run(pid, tier, t0))
