#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (between the <!-- begin X --> markers)."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS  # noqa: E402


def properties():
    yield "| id | title | models (**control**: has to be refuted) | trace module | how it is decided |"
    yield "|---|---|---|---|---|"
    for line in open(f"{V}/properties.jsonl", encoding="utf-8"):
        d = json.loads(line)
        c = PROPS[d["id"]]
        ms = []
        for j in c["models"]:
            n = j["cfg"].replace("MC_", "")
            ms.append(f"**{n}**" if j["expect"] != "holds" else
                      n + (" (thorough only)" if j["thorough_only"] else ""))
        if c.get("scripts"):
            ms.append("scripts: " + c["scripts"]["cfg"].replace("MC_", ""))
        yield f"| {d['id']} | {d['title']} | {', '.join(ms)} | {c['trace']} | {c['what']} |"


def bounds():
    yield "| configuration | constants |"
    yield "|---|---|"
    for f in sorted(glob.glob(f"{V}/spec/MC_*.cfg")):
        m = re.findall(r"^\s*(\w+)\s*(=|<-)\s*(.+)$", open(f, encoding="utf-8").read(), re.M)
        yield f"| {os.path.basename(f)[3:-4]} | {', '.join(f'{a} {o} {b.strip()}' for a, o, b in m)} |"


def bugs():
    yield "| planted bug | property | what it breaks | needs | caught by |"
    yield "|---|---|---|---|---|"
    p = f"{V}/tools/caught.json"
    caught = json.load(open(p, encoding="utf-8")) if os.path.exists(p) else {}
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json", encoding="utf-8"))
        yield f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(d, ['?']))} |"


def main():
    p = f"{V}/DESIGN.md"
    s = open(p, encoding="utf-8").read()
    for name, f in (("properties", properties), ("bounds", bounds), ("bugs", bugs)):
        s = re.sub(f"<!-- begin {name} -->.*?<!-- end {name} -->",
                   lambda _: f"<!-- begin {name} -->\n" + "\n".join(f()) + f"\n<!-- end {name} -->",
                   s, flags=re.S)
    open(p, "w", encoding="utf-8").write(s)


main()
