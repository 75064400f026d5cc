#!/usr/bin/env python3
"""Control traces: accepted executions and corrupted copies that TLC must reject.

For each trace specification: record executions with the drivers, corrupt single
recorded answers, let TLC judge everything, and commit a few accepted ones and, for
every clause of the specification that rejected something, the smallest rejected one.
Prints how many of the corruptions each operation's clauses rejected.
usage: make_canaries.py [T_Module ...]
"""
import copy
import json
import os
import random
import shutil
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
import orchestrate as o  # noqa: E402
import tlc  # noqa: E402
from registry import PROPS  # noqa: E402

rng = random.Random(7)


def places(v, path=()):
    out = [path]
    if isinstance(v, dict):
        for k in v:
            out += places(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(min(len(v), 6)):
            out += places(v[i], path + (i,))
    return out


def corrupt(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1, -1, 1, 1000, -1000])
    if isinstance(v, str):
        return rng.choice(["zz", '"a"', "1"])
    if isinstance(v, list) and v:
        k = rng.randrange(3)
        if k == 0:
            v.pop(rng.randrange(len(v)))
        elif k == 1:
            v.append(copy.deepcopy(rng.choice(v)))
        else:
            i = rng.randrange(len(v))
            v[0], v[i] = v[i], v[0]
        return v
    if isinstance(v, dict) and v:
        v.pop(rng.choice(sorted(v)))
        return v
    return v


def mutate(t):
    """A copy with one recorded value changed, and where."""
    for _ in range(50):
        c = copy.deepcopy(t)
        if not c["ev"]:
            return None
        n = rng.randrange(len(c["ev"]))
        e = c["ev"][n]
        fs = [f for f in e if f not in ("op",)]
        f = rng.choice(fs)
        ps = places(e[f])
        p = rng.choice(ps)
        holder, key = e, f
        for q in p:
            holder, key = holder[key], q
        holder[key] = corrupt(holder[key])
        if c != t:
            return c, e["op"], f
    return None


def main():
    mods = sys.argv[1:] or sorted({p["trace"] for p in PROPS.values()})
    tlc_scratch = tempfile.mkdtemp()
    for mod in mods:
        traces = []
        for prop, conf in PROPS.items():
            if conf["trace"] != mod:
                continue
            scratch = tempfile.mkdtemp()
            scripts = None
            if conf.get("scripts"):
                j = conf["scripts"]
                scripts = rng.sample(s := tlc.run(j["module"], j["cfg"], workers=1).lines["SCRIPT"],
                                     min(len(s), 15))
            ts = [t for t in o.run_driver(prop, "quick", 11, scripts, scratch) if not t["crash"]]
            shutil.rmtree(scratch)
            small = sorted(ts, key=lambda t: len(json.dumps(t)))
            small = [t for t in small if len(t["ev"]) >= 1]
            traces += rng.sample(small[: max(60, len(small) // 2)], 60) if len(small) > 60 else small
        muts, where = [], {}
        for k in range(900):
            m = mutate(rng.choice(traces))
            if m:
                m[0]["id"] = f"canary-{k}"
                muts.append(m[0])
                where[m[0]["id"]] = m[1:]
        verdicts = {}
        for i in range(0, len(muts), 30):
            # corrupted values may stop TLC: judge in small batches
            try:
                vs, _, _ = o.validate(mod, muts[i:i + 30], tlc_scratch, jobs=6, timeout=150)
            except o.Machinery as e:
                print(f"  batch {i} left out: {str(e)[:80]}")
                continue
            verdicts.update(vs)
        table, best = {}, {}
        for t in muts:
            v = verdicts.get(t["id"])
            if v is None:
                continue
            row = table.setdefault(where[t["id"]], [0, 0])
            row[1] += 1
            if not v["ok"]:
                row[0] += 1
                for b in v["bad"]:
                    if b.startswith("WellFormed"):
                        continue
                    if b not in best or len(json.dumps(t)) < len(json.dumps(best[b])):
                        best[b] = t
        print(mod)
        for (op, f), (r, n) in sorted(table.items()):
            print(f"   {op}.{f}: {r}/{n} rejected")
        cans, seen = [], set()
        for b, t in sorted(best.items()):
            if t["id"] not in seen and len(json.dumps(t)) < 6000:
                seen.add(t["id"])
                cans.append({"ok": False, "clause": b, "trace": t})
        byop = {}
        for t in traces:
            for e in t["ev"]:
                x = byop.get(e["op"])
                if x is None or len(json.dumps(t)) < len(json.dumps(x)):
                    byop[e["op"]] = t
        for n, t in enumerate({json.dumps(t): t for t in byop.values()}.values()):
            if len(json.dumps(t)) < 6000:
                t = copy.deepcopy(t)
                t["id"] = f"canary-good-{n}"
                cans.append({"ok": True, "trace": t})
        os.makedirs(os.path.join(V, "spec", "canary"), exist_ok=True)
        with open(os.path.join(V, "spec", "canary", mod + ".json"), "w", encoding="utf-8") as f:
            f.write("[\n" + ",\n".join(json.dumps(c, sort_keys=True) for c in cans) + "\n]\n")
        print("   clauses:", sorted(best), len(cans), "control traces")
    shutil.rmtree(tlc_scratch)


main()
