#!/usr/bin/env python3
"""Run checks against planted bugs (in scratch copies) and print which see which.

usage: catch.py [-p S01,S02 | --all] [id ...]    default: the property of each bug
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS  # noqa: E402


def one(bug, props):
    base = tempfile.mkdtemp(prefix="catch.")
    out = []
    try:
        repo, ver = os.path.join(base, "repo"), os.path.join(base, "verif")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        os.mkdir(ver)
        for d in ("harness", "checks", "spec", "known_findings.json"):
            if os.path.exists(os.path.join(V, d)):
                subprocess.run(["cp", "-a", os.path.join(V, d), ver], check=True)
        r = subprocess.run(["git", "apply", os.path.join(V, "seeded", bug, "patch.diff")],
                           cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return [f"{bug}: patch does not apply: {r.stderr}"]
        for p in props:
            r = subprocess.run([sys.executable, "checks/run.py", "--property", p], cwd=ver,
                               env=dict(os.environ, VERIF_REPO_SRC=os.path.join(repo, "src")),
                               capture_output=True, text=True)
            w = [x for x in r.stdout.splitlines() if " breaks " in x][:1] or \
                [x for x in r.stdout.splitlines() if "ERROR" in x][:1] + r.stderr.splitlines()[-1:]
            state = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc={r.returncode}")
            out.append(f"{bug}: {p} {state} {' '.join(w).strip()[:160]}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def note(lines):
    """Keep the outcome in caught.json, for the table in DESIGN.md."""
    p = os.path.join(V, "tools", "caught.json")
    d = {}
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            d = json.load(f)
    for x in lines:
        w = x.split()
        if len(w) < 3 or w[2] not in ("caught", "MISSED"):
            continue
        got = set(d.get(w[0][:-1], []))
        got = got | {w[1]} if w[2] == "caught" else got - {w[1]}
        d[w[0][:-1]] = sorted(got)
    with open(p, "w", encoding="utf-8") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("bugs", nargs="*")
    a = ap.parse_args()
    bugs = a.bugs or sorted(os.listdir(os.path.join(V, "seeded")))
    jobs = []
    for b in bugs:
        with open(os.path.join(V, "seeded", b, "meta.json")) as f:
            own = json.load(f)["property"]
        jobs.append((b, list(PROPS) if a.all else a.p.split(",") if a.p else [own]))
    with cf.ThreadPoolExecutor(a.j) as ex:
        for f in cf.as_completed([ex.submit(one, *j) for j in jobs]):
            print("\n".join(f.result()), flush=True)
            note(f.result())


main()
