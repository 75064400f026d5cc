#!/usr/bin/env python3
"""python3 checks/run.py --property S01  (tier from VERIF_TIER, seed from VERIF_SEED)"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import orchestrate  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    try:
        sys.exit(orchestrate.check(a.property, a.tier, a.seed))
    except orchestrate.Machinery as e:
        print(f"ERROR of the check for {a.property}: {e}")
        sys.exit(2)


if __name__ == "__main__":
    main()
