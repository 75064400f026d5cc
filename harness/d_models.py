"""Game of Life, growth, grown microstructures: M01, M02, D03."""
import json
import os
import subprocess
import sys
from fractions import Fraction

import pylattica
from pylattica.core import BasicController, SimulationState, SynchronousRunner
from pylattica.core.neighborhood_builders import DistanceNeighborhoodBuilder
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC, VACANT
from pylattica.models.game_of_life import controller as gol
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid.growth_setup import GrowthSetup
from pylattica.structures.square_grid.neighborhoods import (
    MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder,
    VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

from d_neighbors import grid, motif_rule, rand_disps, random_struct, ring_rule
from lib import call

VARIANTS = [gol.Life, gol.Anneal, gol.Diamoeba, gol.Seeds, gol.Maze]
NAMED = {"Life": "B3/S23", "Anneal": "B4678/S35678", "Diamoeba": "B35678/S5678",
         "Seeds": "B2/S", "Maze": "B3/S12345"}


def phase(x):
    return x if isinstance(x, str) else f"{type(x).__name__}:{x!r}"


def cells(state, n):
    return [phase(state.get_site_state(i)[OCC]) for i in range(n)]


def fill(vals, rng, extra=True):
    s = SimulationState()
    ids = list(range(len(vals)))
    if rng.random() < 0.3:
        rng.shuffle(ids)
    for i in ids:
        d = {OCC: vals[i]}
        if extra and rng.random() < 0.3:
            d["note"] = rng.randrange(9)
        s.set_site_state(i, d)
    return s


def runner(kind, workers=None):
    return SynchronousRunner() if kind == "serial" else \
        SynchronousRunner(parallel=True, workers=workers)


def digits(rng):
    return "".join(sorted(str(k) for k in rng.sample(range(9), rng.choice([0, 1, 2, 3, 5]))))


class Sub(gol.GameOfLifeController):
    variant = gol.Seeds


def life_ctrl(rng, struct, variant=None):
    """(controller, its rule in text)"""
    r = rng.random()
    if variant is None:
        if r < 0.1:
            return gol.GameOfLifeController(struct), "B3/S23"
        if r < 0.15:
            return Sub(struct), "B2/S"
        if r < 0.5:
            name = rng.choice(sorted(NAMED))
            return gol.GameOfLifeController(struct, getattr(gol, name)), NAMED[name]
        variant = f"B{digits(rng)}/S{digits(rng)}"
        if rng.random() < 0.2:
            b, s = variant.split("/")
            variant = "B" + "".join(rng.sample(b[1:], len(b) - 1)) + "/" + s
    return gol.GameOfLifeController(struct, variant=variant), variant


def sets(variant):
    b, s = variant.split("/")
    return {"born": [int(x) for x in b[1:]], "survive": [int(x) for x in s[1:]]}


def life_run(ctx, t, dims, vals, variant, kind, workers, n):
    rng = ctx.rng
    h = grid(ctx, t, dims)
    h.rule({"kind": "moore", "r": 1, "n": dims})
    c, variant = life_ctrl(rng, h.struct, variant)
    rule = sets(variant)
    s = fill(vals, rng)
    m = len(vals)
    t.ev("init", cells=cells(s, m))
    if rng.random() < 0.3:
        _, err = call(c.pre_run, s)
        if not err:
            for i in rng.sample(range(m), min(3, m)):
                u, err = call(c.get_state_update, i, s)
                t.ev("life1", site=i, err=err, got="" if err else phase(u[OCC]), **rule)
    res, err = call(runner(kind, workers).run, s, c, n)
    if err:
        t.ev("life", err=err)
        return
    for k in range(1, n + 1):
        t.ev("life", cells=cells(res.get_step(k), m), **rule)
    last = cells(res.last_step, m)
    t.ev("init", cells=cells(res.get_step(n - 1), m))
    t.ev("life", cells=last, **rule)
    t.ev("init", cells=cells(s, m))             # the start is still the start
    t.ev("life", cells=cells(res.get_step(1), m), **rule)
    if rng.random() < 0.4:
        # the same controller, for another start
        vals2 = rng.sample(vals, m)
        s2 = fill(vals2, rng)
        t.ev("init", cells=cells(s2, m))
        res2, err = call(runner(rng.choice(["serial", "serial", kind]), 2).run, s2, c, 2)
        if err:
            t.ev("life", err=err)
            return
        for k in (1, 2):
            t.ev("life", cells=cells(res2.get_step(k), m), **rule)
    if kind == "parallel":
        # the same evolution as a serial run
        res, err = call(runner("serial").run, fill(vals, rng), life_ctrl(rng, h.struct, variant)[0], n)
        t.ev("init", cells=cells(res.get_step(n - 1), m))
        t.ev("life", cells=last, **rule)


def m01(ctx):
    rng = ctx.rng
    scripts = list(ctx.scripts)
    rng.shuffle(scripts)
    for n, sc in enumerate(scripts[: ctx.pick(80, 1500)]):
        def go(t, sc=sc):
            alive = set(sc["alive"])
            m = sc["w"] * sc["h"]
            v = "B" + "".join(map(str, sc["born"])) + "/S" + "".join(map(str, sc["survive"]))
            # number the cells as the structure does
            h = grid(ctx, t, [sc["w"], sc["h"]])
            vals = [None] * m
            for i, s in enumerate(h.sites):
                x, y = s["loc"]
                vals[i] = "alive" if x * sc["h"] + y + 1 in alive else "dead"
            life_run(ctx, t, [sc["w"], sc["h"]], vals, v, "serial", None, 2)
        ctx.case(f"script{n}", go)
    for n in range(ctx.pick(70, 700)):
        def go(t):
            dims = [rng.randrange(1, 8), rng.randrange(1, 8)]
            p = rng.choice([0.2, 0.35, 0.5, 0.9])
            other = rng.random() < 0.15
            vals = ["alive" if rng.random() < p else "dead" if not other or rng.random() < 0.8
                    else "zombie" for _ in range(dims[0] * dims[1])]
            kind = "parallel" if rng.random() < 0.3 else "serial"
            life_run(ctx, t, dims, vals, None, kind, rng.choice([None, 1, 2, 3, 7]),
                     rng.choice([1, 2, 4, 6]))
        ctx.case(f"run{n}", go)
    for n in range(ctx.pick(3, 20)):
        def go(t, n=n):
            dims = [rng.randrange(9, 14), rng.randrange(9, 14)] if n % 3 < 2 else [rng.randrange(22, 27), 23]
            vals = ["alive" if rng.random() < 0.4 else "dead" for _ in range(dims[0] * dims[1])]
            life_run(ctx, t, dims, vals, None, ["parallel", "serial"][n % 2], 4, 3)
        ctx.case(f"large{n}", go)


PH = ["A", "B", "C", "D"]
ODD = ["", "0", " ", "a", "None"]        # names like any other
CROWD = PH + ODD + ["P%d" % k for k in range(9)]


def grow_nb(rng, h, dims, wide=0):
    """(rule, builder or None) on a grid"""
    d = len(dims)
    k = rng.randrange(7) if not wide else rng.choice([1, 1, 2])
    if k == 0:
        return {"kind": "moore", "r": 1, "n": dims}, None
    if k == 1:
        r = wide or rng.choice([1, 1, 2])
        return {"kind": "moore", "r": r, "n": dims}, MooreNbHoodBuilder(r, d)
    if k == 2:
        r = wide or rng.choice([1, 2])
        return {"kind": "neumann", "r": r, "n": dims}, \
            (VonNeumannNbHood2DBuilder if d == 2 else VonNeumannNbHood3DBuilder)(r)
    if k == 3:
        return ({"kind": "hex2"}, PseudoHexagonalNeighborhoodBuilder2D()) if d == 2 else \
            ({"kind": "hex3"}, PseudoHexagonalNeighborhoodBuilder3D())
    if k == 4 and d == 2:
        return {"kind": "pent"}, PseudoPentagonalNeighborhoodBuilder()
    return motif_rule(rng, h, rand_disps(rng, h, 4))


def growth_run(ctx, t, h, rule, builder, even=False):
    rng = ctx.rng
    m = len(h.sites)
    bg = rng.choice([VACANT, VACANT, "liquid", "A", ""])
    phases = [p for p in rng.choice([PH, PH, rng.sample(PH + ODD, 4), rng.sample(CROWD, 12)])
              if p != bg]
    if bg != VACANT and rng.random() < 0.4:
        phases.insert(0, VACANT)        # an ordinary phase when it is not the background
    phases = phases[: rng.choice([1, 2, 2, 3, 6, 12] if not even else [2, 3, 5, 12])]
    k = h.rule(rule)
    args = [PhaseSet(phases + [bg]), h.struct]
    kw = {}
    if bg != VACANT or rng.random() < 0.3:
        kw["background_phase"] = bg
    if builder is not None:
        kw["nb_builder"] = builder
    c = GrowthController(*args, **kw)
    p = rng.choice([0.1, 0.3, 0.6, 0.85] if not even else [0.3, 0.6])
    w = [rng.choice([1, 1, 2, 3]) if not even else 1 for _ in phases]
    w[rng.randrange(len(w))] *= rng.choice([1, len(w) // 2 or 1])
    vals = [rng.choices(phases, w)[0] if rng.random() < p else bg for _ in range(m)]
    if rng.random() < 0.15:
        vals[rng.randrange(m)] = "stranger"      # a phase the set does not list
    s = fill(vals, rng)
    t.ev("init", cells=cells(s, m))
    for i in rng.sample(range(m), min(3, m)):
        u, err = call(c.get_state_update, i, s)
        t.ev("growth1", rule=k, bg=bg, site=i, err=err,
             got="" if err else phase({**s.get_site_state(i), **(u or {})}[OCC]))
    kind = "parallel" if rng.random() < 0.25 else "serial"
    n = rng.choice([1, 2, 3, 4])
    res, err = call(runner(kind, rng.choice([None, 2, 5])).run, s, c, n)
    if err:
        t.ev("growth", err=err)
        return
    for i in range(1, n + 1):
        t.ev("growth", rule=k, bg=bg, cells=cells(res.get_step(i), m))
    t.ev("init", cells=cells(res.get_step(n - 1), m))
    t.ev("growth", rule=k, bg=bg, cells=cells(res.last_step, m))
    if rng.random() < 0.4:
        # the same controller, for another start
        s = fill(rng.sample(vals, m), rng)
        t.ev("init", cells=cells(s, m))
        res, err = call(runner("serial").run, s, c, 2)
        if err:
            t.ev("growth", err=err)
            return
        for i in (1, 2):
            t.ev("growth", rule=k, bg=bg, cells=cells(res.get_step(i), m))


GROW = """
import json, sys
from pylattica.models.growth import GrowthController
from pylattica.core import SimulationState, SynchronousRunner
from pylattica.discrete import PhaseSet
from pylattica.structures.square_grid import structure_builders as b
x = json.load(sys.stdin)
B = b.SimpleSquare2DStructureBuilder if len(x["dims"]) == 2 else b.SimpleSquare3DStructureBuilder
st = B().build(tuple(x["dims"]))
s = SimulationState()
for i, v in enumerate(x["vals"]):
    s.set_site_state(i, {"DISCRETE_OCCUPANCY": v})
c = GrowthController(PhaseSet(["A", "B", "VACANT"]), st)
r = SynchronousRunner().run(s, c, 1)
print(json.dumps([r.last_step.get_site_state(i)["DISCRETE_OCCUPANCY"] for i in st.site_ids]))
"""


def elsewhere(code, arg):
    """What a program prints in an interpreter of its own."""
    src = os.path.dirname(os.path.dirname(os.path.abspath(pylattica.__file__)))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps(arg),
                       env=dict(os.environ, PYTHONPATH=src), capture_output=True, text=True,
                       timeout=300)
    if r.returncode:
        raise RuntimeError(r.stderr.strip().splitlines()[-1][:150])
    return json.loads(r.stdout.splitlines()[-1])


def m02(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(80, 900)):
        def go(t):
            d = rng.choice([2, 2, 3])
            hi = 7 if d == 2 else 4
            dims = [rng.randrange(1, hi) for _ in range(d)]
            h = grid(ctx, t, dims)
            growth_run(ctx, t, h, *grow_nb(rng, h, dims))
        ctx.case(f"grid{n}", go)
    for n in range(ctx.pick(9, 60)):
        def go(t, n=n):
            # many neighbors
            dims = [[rng.randrange(7, 11), rng.randrange(7, 11)], [9, rng.randrange(4, 10)],
                    [5, 4, rng.randrange(3, 6)]][n % 3]
            h = grid(ctx, t, dims)
            growth_run(ctx, t, h, *grow_nb(rng, h, dims, wide=2 if n % 3 == 2 else
                                           rng.choice([2, 3, 3, 4])), even=True)
        ctx.case(f"wide{n}", go)
    for n in range(ctx.pick(2, 6)):
        def go(t, n=n):
            # in an interpreter that has seen nothing else of the package
            dims = [3, 4] if n % 2 else [3, 3, 3]
            h = grid(ctx, t, dims)
            k = h.rule({"kind": "moore", "r": 1, "n": dims})
            vals = rng.choices(["A", "B", VACANT], [1, 1, 4], k=len(h.sites))
            t.ev("init", cells=vals)
            got, err = call(elsewhere, GROW, {"dims": [dims[1], dims[0], *dims[2:]], "vals": vals})
            t.ev("growth", rule=k, bg=VACANT, err=err, **({} if err else {"cells": got}))
        ctx.case(f"fresh{n}", go)
    for n in range(ctx.pick(50, 500)):
        def go(t):
            h = random_struct(ctx, t, n=rng.choice([4, 6, 9]))
            if rng.random() < 0.5:
                r, b = motif_rule(rng, h, rand_disps(rng, h, 5))
            else:
                r, b = ring_rule(rng, h)
            growth_run(ctx, t, h, r, b)
        ctx.case(f"any{n}", go)


def d03(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(70, 500)):
        def go(t, n=n):
            d = 2 if n % 3 else 3
            size = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16] if d == 2 else
                              [1, 2, 3, 3, 4, 5, 6])
            far = n % 23 == 22
            if far:                     # a long way to the last cell
                d, size = rng.choice([(2, rng.randrange(22, 31)), (2, 27), (3, rng.randrange(7, 10))])
            h = grid(ctx, t, [size] * d)
            kind = (n // 3) % 4 if not far else 1
            B = [lambda: MooreNbHoodBuilder(1, d),
                 lambda: (VonNeumannNbHood2DBuilder if d == 2 else VonNeumannNbHood3DBuilder)(1),
                 lambda: (PseudoHexagonalNeighborhoodBuilder2D if d == 2 else
                          PseudoHexagonalNeighborhoodBuilder3D)(),
                 lambda: DistanceNeighborhoodBuilder(1.1)][kind]()
            bg = rng.choice([VACANT, "melt", rng.choice(ODD)])
            phases = rng.sample([p for p in PH + rng.choice([["E", "F"], ODD]) if p != bg] + ([VACANT] if bg != VACANT else []),
                                rng.choice([1, 2, 3, 5]))
            amts = {p: rng.choice([1, 1, 2, 3, 0.5, 7]) for p in phases}
            buffer = rng.choice([2, 1, 3, None])
            room = size ** d if buffer is None else \
                max(1, size ** d // (2 * buffer + 1) ** d // 2)
            nuclei = 1 if far or rng.random() < 0.4 else rng.randrange(1, min(room, 12) + 1)
            setup = GrowthSetup(PhaseSet(phases + [bg]), dim=d) if d == 3 or rng.random() < 0.5 \
                else GrowthSetup(PhaseSet(phases + [bg]))
            kw = {} if buffer == 2 and rng.random() < 0.5 else {"buffer": buffer}
            if rng.random() < 0.3:
                # the setup and the builder are used before, for another size
                call(setup.grow, rng.choice([2, 3, 4]), 1, bg, {phases[0]: 1}, B)
            sim, err = call(setup.grow, size, nuclei, bg, amts, B, **kw)
            f = {"bg": bg, "nuclei": nuclei, "err": err}
            if not err:
                tot = sum(Fraction(str(a)) for a in amts.values())
                f["shares"] = []
                for p, a in amts.items():
                    q = Fraction(str(a)) / tot
                    f["shares"].append({"p": p, "num": q.numerator, "den": q.denominator})
                st = sim.structure
                f["grid"] = [{"cls": "_A", "loc": [int(round(x)) for x in st.site_location(i)]}
                             for i in st.site_ids]
                f["cells"] = [phase(sim.state.get_site_state(i)[OCC]) for i in sim.state.site_ids()]
            t.ev("grown", **f)
        ctx.case(f"grow{n}", go)
