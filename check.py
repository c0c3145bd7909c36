#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: run one property's static analysis on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa import core
    try:
        mod = importlib.import_module("sa.props." + prop.lower())
        rc = core.run(prop, mod.check, mod.EXPLANATION, tier, seed)
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)


main()
