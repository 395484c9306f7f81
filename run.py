#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    vlib.ensure_engine()
    work = vlib.Work()
    try:
        code = checks.run_property(work, pid, tier, seed, t0, budget)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work.dir)
        else:
            work.close()
    sys.exit(code)

main()
