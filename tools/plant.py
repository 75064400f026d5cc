#!/usr/bin/env python3
"""Plant bugs: build /verif/seeded/<id>/ from definitions, keeping what holds up.

usage: plant.py defs.py [id ...]
defs.py has BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)], with
files relative to src/pylattica and demo a Python program that exits non-zero on the bug.
Each is confirmed in a scratch copy of /repo: the demonstration passes without and fails
with the change, and the repository's stable tests pass with it.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T" HOME="$T"
D=$(cd "$(dirname "$0")" && pwd)
cd "$T" || exit 3
timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=900)


def plant(b):
    base = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(base, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        d = os.path.join(base, b["id"])
        os.mkdir(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip())
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(SH)
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode != 0:
            return f"{b['id']}: demo fails on the clean tree: {r.stdout[-800:]}{r.stderr[-800:]}"
        for file, old, new in b["edits"]:
            p = os.path.join(repo, "src/pylattica", file)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: {s.count(old)} places in {file} for {old!r}"
            open(p, "w").write(s.replace(old, new))
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode == 0:
            return f"{b['id']}: demo passes with the bug"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        diff = sh(["git", "diff"], repo).stdout
        xml = os.path.join(base, "x.xml")
        r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "no:cov", "-p",
                "no:xdist", "--randomly-seed=1", "--randomly-dont-reorganize", "--timeout=60",
                "-x", "--junitxml", xml], repo, PYTHONPATH=os.path.join(repo, "src"),
               PYTHONDONTWRITEBYTECODE="1")
        if r.returncode != 0:
            return f"{b['id']}: tests notice: " + " | ".join(
                x for x in r.stdout.splitlines() if x.startswith("FAILED"))
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        out = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(d, out)
        return f"{b['id']}: planted ({why})"
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with cf.ThreadPoolExecutor(4) as ex:
        for f in cf.as_completed([ex.submit(plant, b) for b in bugs]):
            print(f.result(), flush=True)


main()
