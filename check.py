#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property of the code in /repo's working tree.

Exit 0: it held on everything explored; 1: VIOLATION lines; 2: the check itself failed."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    mod = importlib.import_module("checks.c_" + a.property.lower())
    sys.exit(vf.main(a.property, mod.run, a.tier, a.seed))
