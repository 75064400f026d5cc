#!/usr/bin/env python3
"""Write MANIFEST.json from the registry (run after changing the registry)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS  # noqa: E402

NOTE = (
    "Exhaustive for the specification within the stated constants (TLC); for the code, every "
    "recorded execution (scripts enumerated from the specification, and seeded random ones) is "
    "decided exactly by TLC against the specification. Trusted: TLC, the projection of public "
    "API values in harness/lib.py. Not covered: executions outside the generated ones."
)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    cmd = f"python3 checks/run.py --property {i}"
    checks.append({
        "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
        "technique": "explicit TLA+ specification: TLC model checking, specification-derived "
                     "scripts replayed on the code, TLC trace validation of recorded executions",
        "level": "model_checking",
        "level_note": PROPS[i].get("note", PROPS[i]["what"]) + " " + NOTE,
    })
man = {
    "version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na,
    "notes": "TLA+ with TLC. Tier and seed come from VERIF_TIER and VERIF_SEED. No hooks in "
             "/repo: the checks use its public interface only.",
}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
