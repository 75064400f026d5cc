#!/usr/bin/env python3
"""python3 checks/replay.py PATH: judge a recorded execution again, with TLC."""
import json
import os
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import tlc  # noqa: E402

with open(sys.argv[1], encoding="utf-8") as f:
    d = json.load(f)
t = d["trace"]
print(json.dumps(d["verdict"]))
if t["crash"]:
    print("the real code did not complete the calls:", t["crash"])
    sys.exit(1)
with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
    json.dump([t], f)
    f.flush()
    r = tlc.run(d["module"], env={"TRACE_FILE": f.name})
for v in r.lines["VERDICT"]:
    print("TLC:", v)
    if not v["ok"] and v["pos"] <= len(t["ev"]):
        print("event:", json.dumps(t["ev"][v["pos"] - 1])[:3000])
if not r.lines["VERDICT"]:
    print(r.error_text())
