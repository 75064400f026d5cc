"""Starting states on grids: D01, D02."""
import math
from fractions import Fraction

import numpy as np
from pylattica.core import SimulationState
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.square_grid.grid_setup import DiscreteGridSetup

from d_models import fill, phase
from lib import call

PH = ["A", "B", "C", "D", "E", "F", "G", "H"]
CROWD = PH + ["P%d" % k for k in range(14)]


def setup_for(rng, d, phases):
    if d == 2 and rng.random() < 0.5:
        return DiscreteGridSetup(PhaseSet(phases))
    return DiscreteGridSetup(PhaseSet(phases), dim=d)


def locs(struct):
    return [[int(round(x)) for x in struct.site_location(i)] for i in sorted(struct.site_ids)]


def used_before(rng, s, buffer=2):
    """The setup has made other starting states before."""
    if rng.random() < 0.35:
        size = rng.randrange(1, 5)
        call(s.setup_random_sites, size, 1, "Z", {"A": 1}, buffer=buffer)
        call(s.setup_interface, size, "A", "B")
        call(s.setup_particle, size, 1, "A", "B")
        call(s.setup_coords, size, "A", {"B": [[0] * 3, [0, 0]]})
    return s


def spread(rng, d, t, kind, draws):
    """Where the phases of a random setup have been, in many draws."""
    size = 3 if d == 2 else 2
    struct = canon_grid(t, size, d)
    m = len(t.d["L"])
    s = setup_for(rng, d, PH)
    ps = rng.sample(PH[1:], rng.choice([1, 2, 3] if kind != "noise" else [1, 3, 7]))

    def go():
        pairs = set()
        for _ in range(draws):
            if kind == "nuclei":
                sim = s.setup_random_sites(size, 1, "A", {p: 1 for p in ps}, buffer=None)
            elif kind == "noise":
                sim = s.setup_noise(size, ps)
            else:
                sim = s.setup_random_particles(size, 0.5, 1, "A", ps)
            c = seen(sim, struct, m)["cells"]
            pairs |= {(i, p) for i, p in enumerate(c) if p != "A"}
        return sorted(pairs)
    got, err = call(go)
    t.ev("spread", kind=kind, phases=ps, err=err,
         **({} if err else {"got": [{"site": i, "p": p} for i, p in got]}), cells=[])


def canon_grid(t, size, d):
    """The grid the builder makes: every point of the cube, in its order."""
    s = DiscreteGridSetup(PhaseSet(["A"]), dim=d).build_structure(size)
    t["L"], t["n"] = locs(s), [size] * d
    return s


def seen(sim_or_state, struct, n):
    st = getattr(sim_or_state, "state", sim_or_state)
    ids = sorted(st.site_ids())
    if ids != list(range(n)):
        return {"L": [], "cells": []}
    return {"L": locs(struct), "cells": [phase(st.get_site_state(i)[OCC]) for i in ids]}


def shares(amts):
    tot = sum(Fraction(str(a)) for a in amts.values())
    out = []
    for p, a in amts.items():
        q = Fraction(str(a)) / tot
        out.append({"p": p, "num": q.numerator, "den": q.denominator})
    return out


def nuclei(ctx, t, size, d, want, amts, buffer, bg="bg"):
    canon_grid(t, size, d)
    s = used_before(ctx.rng, setup_for(ctx.rng, d, list(amts) + [bg]), buffer)
    kw = {} if buffer == 2 and ctx.rng.random() < 0.5 else {"buffer": buffer}
    sim, err = call(s.setup_random_sites, size, want, bg, amts, **kw)
    sane = sum(amts.values()) > 0
    f = {"want": round(want), "bg": bg, "buffer": -1 if buffer is None else buffer, "sane": sane,
         "shares": shares(amts) if sane else [], "err": err}
    if not err:
        f.update(seen(sim, sim.structure, len(t.d["L"])))
    t.ev("nuclei", **f)


def d01(ctx):
    rng = ctx.rng
    ctx.limit = 60

    def amounts(k):
        kind = rng.randrange(5)
        ps = rng.sample(PH if k < 8 else CROWD, k)
        if kind == 0:
            return {p: 1 for p in ps}
        if kind == 1:
            return {p: rng.randrange(1, 10) for p in ps}
        if kind == 2:
            return {p: round(rng.uniform(0.01, 1), 2) for p in ps}
        if kind == 3:           # one dominates
            a = {p: rng.choice([0.1, 0.01, 1]) for p in ps}
            a[ps[rng.randrange(k)]] = rng.choice([50, 9.7, 1000])
            return a
        a = {p: rng.choice([0, 1, 2, 0.5]) for p in ps}
        a[ps[0]] = a[ps[0]] or 1
        return a

    for n in range(ctx.pick(200, 2500)):
        def go(t, n=n):
            d = 2 if n % 4 else 3
            size = rng.randrange(1, 11 if d == 2 else 6)
            amts = amounts(rng.choice([1, 2, 3, 3, 5, 8, 14]))
            buffer = rng.choice([2, 2, 1, 3, 0, None, None])
            vol = size ** d
            b = buffer or 0
            room = max(1, vol // min(vol, (2 * b + 1) ** d * 2))
            kind = rng.randrange(4)
            if kind < 2:
                want = rng.randrange(0, room + 1)
            elif kind == 2:
                want = rng.choice([room, min(20, room + 1), min(20, 2 * room)])
            else:
                want = min(room, rng.choice([1, 2, 5, 10]))
            if rng.random() < 0.1:
                want += 0.2                     # rounded
            nuclei(ctx, t, size, d, want, amts, buffer, rng.choice(["bg", "", "VACANT"]))
        ctx.case(f"nuclei{n}", go)
    for n in range(ctx.pick(40, 300)):
        def go(t, n=n):
            # many nuclei, to see the shares, with and without spacing
            buffer = [None, 0, 1][n % 3]
            want = rng.randrange(10, 60) if n % 3 else rng.randrange(10, 100)
            nuclei(ctx, t, 24 if buffer else 11, 2, want, amounts(rng.choice([2, 3, 5, 8, 20])), buffer)
        ctx.case(f"many{n}", go)
    for n in range(ctx.pick(24, 120)):
        def go(t, n=n):
            # no room, or no ratios
            k = n % 4
            size, d = rng.randrange(1, 5), 2
            if k == 0:
                nuclei(ctx, t, size, d, size ** d + rng.randrange(1, 4), amounts(2), None)
            elif k == 1:
                nuclei(ctx, t, size, d, 2, amounts(1), rng.randrange(size, size + 3))
            elif k == 2:
                nuclei(ctx, t, size, d, rng.randrange(1, 4), {"A": 0, "B": 0.0}, None)
            else:
                nuclei(ctx, t, 4, 3, rng.randrange(2, 9), amounts(2), 2)
        ctx.case(f"refuse{n}", go)
    for n in range(ctx.pick(30, 200)):
        def go(t, n=n):
            # nuclei on opposite edges are neighbors
            d = 2 if n % 3 else 3
            size = rng.choice([3, 4, 5, 6]) if d == 2 else rng.choice([3, 4])
            b = rng.choice([1, 1, 2]) if size > 4 else 1
            nuclei(ctx, t, size, d, (size // (b + 1)) ** d if rng.random() < 0.3 else 2,
                   amounts(2), b)
        ctx.case(f"edges{n}", go)
    for d in (2, 3):
        ctx.case(f"spread{d}", lambda t, d=d: spread(rng, d, t, "nuclei", 250))


def radius(rng, hi, half):
    """(radius, lim): 2 * distance has a square below lim iff inside."""
    if rng.random() < 0.5:
        r = rng.choice([0, 1, 2, 3, 4, hi]) if not half else rng.choice([1, 2, 3, 5, 7]) / 2
        return r, int(round(4 * r * r))
    q = rng.randrange(0, 4 * hi * hi + 1)
    return math.sqrt(q + 0.5) / 2, q + 1


def d02(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(150, 1500)):
        def go(t, n=n):
            kind = ["solid", "interface", "particle", "particle", "addparticle", "coords",
                    "noise", "rparticles", "rparticles"][n % 9]
            d = 2 if rng.random() < 0.65 else 3
            size = rng.randrange(1, 9 if d == 2 else 6)
            if kind == "rparticles":
                size = rng.randrange(1, 6 if d == 2 else 4)
            if n % 27 in (20, 24) and kind != "rparticles" or n % 27 == 3:
                d, size = rng.choice([(2, rng.randrange(20, 41)), (2, 36), (3, rng.randrange(8, 11))])
            struct = canon_grid(t, size, d)
            m = len(t.d["L"])
            s = used_before(rng, setup_for(rng, d, PH))
            p, q, bg = rng.sample(PH, 3)
            if kind == "solid":
                st, err = call(s.setup_solid_phase, struct, p)
                t.ev("solid", p=p, err=err, **({} if err else seen(st, struct, m)))
                sb, err = call(s.build_structure, size)
                t.ev("solid", p=p, err=err, **({} if err else seen(st, sb, m)))
            elif kind == "interface":
                if rng.random() < 0.1:
                    q = p
                sim, err = call(s.setup_interface, size, p, q)
                t.ev("interface", p1=p, p2=q, err=err,
                     **({} if err else seen(sim, sim.structure, m)))
            elif kind == "particle":
                r, lim = radius(rng, max(1, size), rng.random() < 0.5)
                sim, err = call(s.setup_particle, size, r, q, p)
                t.ev("particle", lim=lim, p=p, bulk=q, err=err,
                     **({} if err else seen(sim, sim.structure, m)))
            elif kind == "addparticle":
                vals = [rng.choice(PH) for _ in range(m)]
                st = fill(vals, rng, extra=False)
                t.ev("noise", phases=PH, err="", **seen(st, struct, m))
                for _ in range(3):
                    c2 = [rng.randrange(-1, 2 * size + 1) for _ in range(d)]
                    r, lim = radius(rng, max(1, size // 2), rng.random() < 0.5)
                    x = rng.choice(PH)
                    c = rng.choice([tuple, list, np.array])([v / 2 for v in c2])
                    st2, err = call(s.add_particle_to_state, struct, st, c, r, x)
                    t.ev("addparticle", c2=c2, lim=lim, p=x, err=err,
                         **({} if err else seen(st2, struct, m)))
                    if err:
                        break
                    st = st2
            elif kind == "coords":
                pts = rng.sample(t.d["L"], rng.randrange(0, min(m, rng.choice([9, 60])) + 1))
                some = rng.sample(PH, rng.choice([1, 3, 8]))
                at = [{"p": rng.choice(some), "loc": list(x)} for x in pts]
                if rng.random() < 0.3:
                    for a in at:
                        a["loc"] = [x + size * rng.randrange(-1, 2) for x in a["loc"]]
                co = {}
                for a in at:
                    co.setdefault(a["p"], []).append(rng.choice([tuple, list])(a["loc"]))
                if rng.random() < 0.3:
                    co.setdefault("H", [])
                sim, err = call(s.setup_coords, size, bg, co)
                t.ev("coords", bg=bg, at=at, err=err,
                     **({} if err else seen(sim, sim.structure, m)))
            elif kind == "noise":
                ps = rng.sample(CROWD, rng.choice([1, 2, 3, 4, 20]))
                sim, err = call(s.setup_noise, size, ps)
                t.ev("noise", phases=ps, err=err, **({} if err else seen(sim, sim.structure, m)))
            else:
                ps = rng.sample([x for x in PH if x != q], rng.choice([1, 1, 2]))
                k = rng.choice([0, 1, 1, 2, 3, 6])
                r, lim = radius(rng, 2, rng.random() < 0.5)
                sim, err = call(s.setup_random_particles, size, r, k, q, ps)
                search = 3 if m * len(ps) <= 8 else 2 if m * len(ps) <= 32 else 1
                t.ev("rparticles", k=k, lim=lim, bulk=q, phases=ps, search=search, err=err,
                     **({} if err else seen(sim, sim.structure, m)))
        ctx.case(f"setup{n}", go)
    for n in range(4):
        ctx.case(f"spread{n}", lambda t, n=n: spread(
            rng, 2 + n // 2, t, ["noise", "rparticles"][n % 2], [120, 900][n % 2]))
    # the result is a working simulation of its own
    for n in range(ctx.pick(10, 50)):
        def go(t):
            size = rng.randrange(2, 6)
            canon_grid(t, size, 2)
            s = setup_for(rng, 2, PH)
            a, err = call(s.setup_interface, size, "A", "B")
            b, err = call(s.setup_interface, size, "A", "B")
            if not err:
                b.state.set_site_state(0, {OCC: "G"})
                a2 = SimulationState.from_dict(a.state.as_dict())
                t.ev("interface", p1="A", p2="B", err="", **seen(a2, a.structure, size * size))
        ctx.case(f"separate{n}", go)
