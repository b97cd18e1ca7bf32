#!/usr/bin/env python3
"""check.py PROPERTY   -- tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vrun, checks
prop = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    tier = sys.argv[sys.argv.index("--tier") + 1]
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
if prop not in checks.CHECKS:
    print("unknown property", prop); sys.exit(2)
sys.exit(vrun.run_check(prop, checks.CHECKS[prop], "thorough" if tier == "thorough" else "quick", seed))
