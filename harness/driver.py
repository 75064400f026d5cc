"""Produce the recorded executions for one property (run by orchestrate.py)."""
import argparse
import importlib
import json
import os
import sys

import lib
from registry import PROPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out", required=True)
    ap.add_argument("--scripts")
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    scripts = []
    if a.scripts:
        with open(a.scripts, encoding="utf-8") as f:
            scripts = json.load(f)
    import pylattica

    src = os.path.realpath(os.path.dirname(pylattica.__file__))
    want = os.path.realpath(os.environ["VERIF_REPO_SRC"])
    if not src.startswith(want):
        print(f"driver imports {src}, not {want}", file=sys.stderr)
        sys.exit(3)
    os.chdir(a.scratch)
    with open(a.out, "w", encoding="utf-8") as out:
        ctx = lib.Ctx(a.prop, a.tier, a.seed, out, scripts, a.scratch)
        mod, fn = PROPS[a.prop]["driver"].split(":")
        getattr(importlib.import_module(mod), fn)(ctx)
        ctx.write({"end": ctx.n})


if __name__ == "__main__":
    main()
