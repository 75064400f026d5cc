"""Lattices, structures, structure builders and simulations: G01 - G06."""
import itertools
import json
import math
import os

import numpy as np
from pylattica.core import (Lattice, PeriodicStructure, Simulation, SimulationState,
                            StructureBuilder)
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID
from pylattica.core.lattice import pbc_diff_cart, pbc_diff_frac_vec, periodize
from pylattica.structures.honeycomb import HoneycombTilingBuilder
from pylattica.structures.square_grid import (SimpleSquare2DStructureBuilder,
                                              SimpleSquare3DStructureBuilder)

from d_state import rand_updates
from lib import call, cmap, proj

R3 = math.sqrt(3)
OFF = 999983                    # a coordinate that is not on the grid


def eye(d):
    return [[int(i == j) for j in range(d)] for i in range(d)]


class Basis:
    """Real vectors in which the integer locations of a trace are meant."""

    def __init__(self, B, gram=None, scale=None):
        self.B = np.array(B, dtype=float)
        self.inv = np.linalg.inv(self.B)
        self.d = len(B)
        self.gram, self.scale = gram or eye(self.d), scale   # |x|^2 = quad(x, gram) / scale

    def cart(self, p, rng=None):
        v = [sum(p[i] * self.B[i][j] for i in range(self.d)) for j in range(self.d)]
        if rng is None:
            return v
        how = rng.randrange(4)
        if how == 0:
            return tuple(v)
        if how == 1:
            return np.dot(p, self.B)
        if how == 2 and all(float(x).is_integer() for x in v):
            return tuple(int(x) for x in v)
        return v

    def ints(self, v):
        """The grid vector at Cartesian v (to within the lookup precision)."""
        v = np.array([float(x) for x in v])
        p = [int(round(x)) for x in v @ self.inv]
        near = np.array(self.cart(p))
        if len(v) != self.d or np.max(np.abs(near - v)) > 0.00055:
            return [OFF] * self.d
        return p

    def range(self, dist, tol=0.00051):
        """The squared lengths, in the unit of the Gram matrix, that agree with dist."""
        lo, hi = max(0.0, dist - tol), dist + tol
        return [math.ceil(self.scale * lo * lo - 1e-9), math.floor(self.scale * hi * hi + 1e-9)]


def cubic(d, c):
    return Basis([[c if i == j else 0 for j in range(d)] for i in range(d)], eye(d), 1 / c / c)


def hexa(f):
    return Basis([[1 / f, 0], [1 / 2 / f, R3 / 2 / f]], [[2, 1], [1, 2]], 2 * f * f)


def hexprism(f):
    return Basis([[1 / f, 0, 0], [1 / 2 / f, R3 / 2 / f, 0], [0, 0, 1 / f]],
                 [[2, 1, 0], [1, 2, 0], [0, 0, 2]], 2 * f * f)


def ortho(*c):
    """Different units along the axes, as multiples of 1/10."""
    d = len(c)
    return Basis([[c[i] / 10 if i == j else 0 for j in range(d)] for i in range(d)],
                 [[c[i] ** 2 if i == j else 0 for j in range(d)] for i in range(d)], 100)


UNITS = [1, 1, 1 / 2, 1 / 4, 1 / 8, 1 / 10, 1 / 3, 1 / 16, 1 / 7, 0.3, 5.43 / 8, 2.87 / 4, 1 / 100,
         0.15]


def any_basis(rng, d):
    if d == 1:
        return cubic(1, rng.choice(UNITS))
    r = rng.random()
    if r < 0.62:
        return cubic(d, rng.choice(UNITS))
    if r < 0.8:
        f = rng.choice([1, 2, 3, 4, 6, 8])
        return hexa(f) if d == 2 else hexprism(f) if d == 3 else cubic(d, 1 / f)
    return ortho(*[rng.choice([1, 2, 3, 5, 7, 12]) for _ in range(d)])


def det(V):
    return int(round(np.linalg.det(np.array(V))))


def rand_V(rng, d, hi=4, skew=True):
    if d > 3 and rng.random() < 0.4:
        return [[rng.choice([1, 2, 3, 4]) if i == j else 0 for j in range(d)] for i in range(d)]
    if d > 3:
        hi = min(hi, 2)
    while True:
        if not skew or rng.random() < 0.4:
            V = [[rng.randrange(1, hi + 1) if i == j else 0 for j in range(d)] for i in range(d)]
            if rng.random() < 0.4:
                rng.shuffle(V)
        else:
            V = [[rng.randrange(-hi, hi + 1) for _ in range(d)] for _ in range(d)]
        if det(V) != 0:
            return V


def rand_per(rng, d):
    return rng.choice([[True] * d, [True] * d, [False] * d,
                       [rng.random() < 0.5 for _ in range(d)]])


def per_arg(rng, per):
    """The periodicity in one of the ways it can be given."""
    if len(set(per)) == 1 and rng.random() < 0.5:
        return per[0]
    return rng.choice([tuple, list])(per)


def mklattice(rng, b, V, per):
    vecs = [b.cart(v, rng) for v in V]
    if rng.random() < 0.3:
        vecs = np.array(vecs, dtype=float)
    if all(per) and rng.random() < 0.3:
        return Lattice(vecs)
    return Lattice(vecs, per_arg(rng, per))


def shift(rng, V, per, p, all_dirs=False, reach=3):
    """An equivalent of p (or, with all_dirs, possibly a shift along any direction)."""
    n = [rng.randrange(-reach, reach + 1) if q or all_dirs else 0 for q in per]
    return [p[j] + sum(n[i] * V[i][j] for i in range(len(V))) for j in range(len(p))]


def bound(b, V, per, d):
    """Coefficients up to this are enough to find the nearest image of d."""
    M = np.array(V, dtype=float) @ b.B
    inv = np.linalg.inv(M)
    f = np.array(b.cart(d)) @ inv
    f = np.where(per, f - np.floor(f), f)
    D = np.linalg.norm(f @ M)
    reach = [abs(f[i]) + D * np.linalg.norm(inv[:, i]) for i in range(len(V)) if per[i]]
    return math.ceil(max(reach)) + 1 if reach else 0


def fits(b, V, per, d, k):
    """TLC, which counts up to 2^31, can compute the distance of points that are d apart."""
    n = len(V)
    far = [abs(x) for x in d]
    adj = max(1, max(abs(x) for v in V for x in v)) ** (n - 1) * math.factorial(n - 1)
    cells = sum(far) * adj
    reach = [0 if all(per) else x for x in far]
    reach = [x + (k + 1) * sum(abs(v[i]) for v in V) for i, x in enumerate(reach)]
    quad = sum(reach[i] * abs(b.gram[i][j]) * reach[j] for i in range(n) for j in range(n))
    return max(cells, quad) < 2**31


def cc(c):
    """A site class, which can be anything."""
    return c if isinstance(c, str) else "obj:" + repr(c)


class Rec:
    def __init__(self, t, ctx, b):
        self.t, self.ctx, self.b, self.rng = t, ctx, b, ctx.rng
        t["gram"] = b.gram
        self.s = self.state = None

    def lat(self, L):
        return {"V": [self.b.ints(v) for v in L.vecs], "per": [bool(x) for x in L.periodic]}

    def site(self, d):
        return {"id": int(d[SITE_ID]), "cls": cc(d[SITE_CLASS]), "loc": self.b.ints(d[LOCATION])}

    def obs(self):
        s = self.s
        cl = sorted({d[SITE_CLASS] for d in s.sites()} | {"zz", ""}, key=cc)
        byid = []
        for i in s.site_ids:
            d = self.site(s.get_site(i))
            if cc(s.site_class(i)) != d["cls"] or self.b.ints(s.site_location(i)) != d["loc"]:
                d["cls"] = "site_class/site_location differ"
            byid.append(d)
        return {"ids": [int(i) for i in s.site_ids], "sites": [self.site(d) for d in s.sites()],
                "byid": byid, "classes": [cc(c) for c in s.all_site_classes()],
                "unknown": all(s.get_site(i) is None for i in [len(byid), -1, 10**6]),
                "ofclass": {cc(c): [int(d[SITE_ID]) for d in s.sites(c)] for c in cl}}

    def new(self, V, per):
        self.V, self.per = V, per
        self.state = None
        self.s = PeriodicStructure(mklattice(self.rng, self.b, V, per))
        self.t.ev("new", V=V, per=per, lat=self.lat(self.s.lattice), obs=self.obs())

    def add(self, cls, p):
        at = self.b.cart(p, self.rng)
        got, err = call(self.s.add_site, cls, at)
        if isinstance(at, np.ndarray) and at.dtype.kind == "f":
            at += 1.25      # the caller goes on to use its vector for something else
        self.t.ev("add", cls=cc(cls), loc=p, got=-1 if err else int(got), err=err, obs=self.obs())

    def find(self, p):
        def go():
            at = self.b.cart(p, self.rng)
            i, c, d = self.s.id_at(at), self.s.class_at(at), self.s.site_at(at)
            st = Simulation(self.state or SimulationState(), self.s).state_at(at)
            return {"id": -1 if i is None else int(i), "cls": "-" if c is None else cc(c),
                    "site": {"id": -1, "cls": "-", "loc": []} if d is None else self.site(d),
                    "has": st is not None, "state": cmap(st or {})}
        got, err = call(go)
        self.t.ev("find", loc=p, err=err, **(got or {}))

    def set_state(self):
        self.state = SimulationState()
        for i in self.s.site_ids:
            self.state.set_site_state(i, rand_updates(self.rng, True))
        if self.rng.random() < 0.5:
            self.state.set_general_state(rand_updates(self.rng, True))
        self.t.ev("state", state=proj(self.state))

    def reload(self, how):
        rng = self.rng

        def mix(d):
            """The same dictionary with its entries in another order."""
            if isinstance(d, dict):
                k = list(d)
                rng.shuffle(k)
                return {i: mix(d[i]) for i in k}
            return d

        def go():
            st = self.state or SimulationState()
            if how == 0:
                return PeriodicStructure.from_dict(self.s.as_dict()), \
                    SimulationState.from_dict(st.as_dict())
            if how == 1:
                return PeriodicStructure.from_dict(json.loads(json.dumps(self.s.as_dict()))), \
                    SimulationState.from_dict(json.loads(json.dumps(st.as_dict())))
            if how == 2:
                return PeriodicStructure.from_dict(mix(json.loads(json.dumps(self.s.as_dict())))), \
                    SimulationState.from_dict(mix(json.loads(json.dumps(st.as_dict()))))
            sim = Simulation(st, self.s)
            if how == 3:
                sim = Simulation.from_dict(json.loads(json.dumps(sim.as_dict(), sort_keys=True)))
            elif how == 4:
                sim = Simulation.from_dict(mix(sim.as_dict()))
            elif how == 5:
                f = os.path.join(self.ctx.tmp(), "sim.json")
                sim.to_file(f)
                sim = Simulation.from_file(f)
            else:
                L = Lattice.from_dict(json.loads(json.dumps(self.s.lattice.as_dict())))
                d = self.s.as_dict()
                d["lattice"] = L.as_dict()
                return PeriodicStructure.from_dict(d), st
            return sim.structure, sim.state

        got, err = call(go)
        f = {}
        if not err:
            self.s, st = got
            if self.state is not None:
                self.state = st
            f = {"lat": self.lat(self.s.lattice), "obs": self.obs(), "state": proj(st)}
        self.t.ev("reload", how=how, err=err, **f)

    def finds(self, k, near=True):
        """Look up sites, their images, and places where there is nothing."""
        rng, locs = self.rng, [self.b.ints(d[LOCATION]) for d in self.s.sites()]
        for _ in range(k):
            p = rng.choice(locs) if locs else [0] * self.b.d
            r = rng.random()
            if r < 0.55:
                p = shift(rng, self.V, self.per, p, all_dirs=r < 0.15)
            elif r < 0.8 and near:
                p = shift(rng, self.V, self.per, p)
                p[rng.randrange(self.b.d)] += rng.choice([-1, 1])
            else:
                p = [rng.randrange(-9, 10) for _ in p]
            self.find(p)


CLASSES = ["A", "B", "_A", "c c", "0", "", 0, 2]


def rand_points(rng, V, per, n):
    d = len(V)
    out = []
    for _ in range(n):
        if out and rng.random() < 0.3:
            p = shift(rng, V, per, rng.choice(out), all_dirs=rng.random() < 0.4)
        elif out and d > 1 and rng.random() < 0.3:
            # with the same coordinates in another order, or with the same sum
            p = list(rng.choice(out))
            i, j = rng.sample(range(d), 2)
            if rng.random() < 0.5:
                p[i], p[j] = p[j], p[i]
            else:
                p[i], p[j] = p[i] + 1, p[j] - 1
        elif rng.random() < 0.4:
            # on the boundary of the cell
            k = [rng.choice([-1, 0, 0, 1, 2]) for _ in V]
            p = [sum(k[i] * V[i][j] for i in range(d)) for j in range(d)]
            if rng.random() < 0.5:
                i = rng.randrange(d)
                p = [p[j] + V[i][j] // 2 for j in range(d)]
        else:
            p = [rng.randrange(-8, 9) for _ in range(d)]
        out.append(p)
    return out


def history(ctx, t, reloads=False, finds=2, d=None, n=None):
    rng = ctx.rng
    d = d or rng.choice([1, 2, 2, 2, 3, 3, 4] if rng.random() < 0.7 else [2, 3])
    b = any_basis(rng, d)
    r = Rec(t, ctx, b)
    V, per = rand_V(rng, d), rand_per(rng, d)
    r.new(V, per)
    for p in rand_points(rng, V, per, n or rng.choice([3, 8, 14])):
        r.add(rng.choice(CLASSES[: rng.randrange(1, 9)]), p)
        r.finds(rng.randrange(finds + 1))
        if rng.random() < 0.1:
            r.set_state()
        if reloads and rng.random() < 0.35:
            r.reload(rng.randrange(7))
            r.finds(2)
    if reloads:
        r.set_state()
        r.reload(rng.randrange(7))
    r.finds(6)


def scripted(ctx, n, sc):
    rng = ctx.rng

    def go(t):
        b = any_basis(rng, 2)
        r = Rec(t, ctx, b)
        r.new(sc["v"], sc["per"])
        for o in sc["log"]:
            if o["op"] == "add":
                r.add(o["cls"], o["loc"])
            else:
                r.reload(rng.randrange(7))
        r.finds(3)
    ctx.case(f"script{n}", go)


def pick_scripts(ctx, k, deep, want):
    s = [x for x in ctx.scripts if want(x["log"])]
    ctx.rng.shuffle(s)
    return enumerate(s[: ctx.pick(k, deep)])


def has(op):
    return lambda log: any(o["op"] == op for o in log)


def g01(ctx):
    for n, sc in pick_scripts(ctx, 120, 3000, lambda log: not has("reload")(log)):
        scripted(ctx, n, sc)
    for n in range(ctx.pick(110, 1500)):
        ctx.case(f"history{n}", lambda t: history(ctx, t, finds=4))
    for n in range(ctx.pick(25, 200)):
        ctx.case(f"built{n}", lambda t: build_case(ctx, t, finds=12))
    huge(ctx, ctx.pick(2, 9))


def g02(ctx):
    rng = ctx.rng
    for n, sc in pick_scripts(ctx, 150, 4000, lambda log: not has("reload")(log)):
        scripted(ctx, n, sc)
    for n in range(ctx.pick(110, 1500)):
        def go(t):
            d = rng.choice([1, 2, 2, 2, 3, 3, 4])
            r = Rec(t, ctx, any_basis(rng, d))
            V, per = rand_V(rng, d), rand_per(rng, d)
            r.new(V, per)
            for p in rand_points(rng, V, per, rng.choice([3, 6]) if d < 4 else 9):
                r.add(rng.choice(CLASSES), p)
                for _ in range(rng.randrange(3)):
                    r.add(rng.choice(CLASSES), shift(rng, V, per, p, rng.random() < 0.3))
            r.finds(4)
        ctx.case(f"again{n}", go)
    for n in range(ctx.pick(20, 200)):
        def go(t):
            r = build_case(ctx, t, finds=0)
            locs = [r.b.ints(x[LOCATION]) for x in r.s.sites()]
            for p in rng.sample(locs, min(3, len(locs))):
                r.add("B", shift(rng, r.V, r.per, p, rng.random() < 0.3))
            r.add("B", [rng.randrange(-9, 10) for _ in p])
            r.finds(3)
        ctx.case(f"built{n}", go)
    huge(ctx, ctx.pick(2, 9))


class Frac(StructureBuilder):
    frac_coords = True


def build_case(ctx, t, finds=3, max_cells=24):
    rng = ctx.rng
    d = rng.choice([1, 2, 2, 2, 2, 2, 3, 3, 4])
    frac = rng.random() < 0.5
    if frac:
        # the motif is given in units of 1/f of the lattice vectors, whatever they are
        f = rng.choice([1, 2, 3, 4, 5, 8])
        while True:
            M = np.array([[rng.choice([0, 0, 1, 1.5, -0.5, 2.1, R3, 3.7, -1]) for _ in range(d)]
                          for _ in range(d)])
            if abs(np.linalg.det(M)) > 0.3:
                break
        if rng.random() < 0.3:
            M = hexa(1).B if d == 2 else hexprism(1).B if d == 3 else M
        b = Basis(M / f)
        V = [[f * x for x in r] for r in eye(d)]
        hi = 2 * f
    else:
        b = any_basis(rng, d)
        V = rand_V(rng, d, 4)
        hi = 6
    per = rand_per(rng, d)
    r = Rec(t, ctx, b)
    vol = abs(det(V))
    motif = []
    for _ in range(min(vol, rng.choice([1, 1, 2, 3, 5]))):
        for _ in range(30):
            p = [rng.randrange(-hi // 2 if rng.random() < 0.2 else 0, hi) for _ in range(d)]
            inv = np.linalg.inv(np.array(V, dtype=float))
            if all(not np.allclose(x := (np.array(p) - q["loc"]) @ inv, np.round(x), atol=1e-9)
                   for q in motif):
                motif.append({"cls": rng.choice(CLASSES[:3] + ["", 0]), "loc": p})
                break
    while True:
        cells = [rng.choice([1, 1, 2, 3, 4, 5, 7]) for _ in range(d)]
        if math.prod(cells) * len(motif) <= max_cells:
            break
    L = mklattice(rng, b, V, per)
    m = {}
    for q in motif:
        at = [x / V[i][i] for i, x in enumerate(q["loc"])] if frac else b.cart(q["loc"], rng)
        m.setdefault(q["cls"], []).append(rng.choice([tuple, list])(at))
    if rng.random() < 0.2:
        for q in motif:
            q["cls"] = "A"
        m = [v for c in m.values() for v in c]
    how = rng.randrange(3)
    if how == 0 and len(set(cells)) == 1:
        size, fn = cells[0], (Frac if frac else StructureBuilder)(L, m).build
    elif how < 2:
        size, fn = tuple(cells), (Frac if frac else StructureBuilder)(L, m).build
    else:
        size = rng.choice([tuple, list])(cells)

        def fn(sz):
            return PeriodicStructure.build_from(L, sz, m, frac_coords=frac)
    record_build(r, V, per, cells, motif, fn, size)
    r.finds(finds)
    return r


def record_build(r, V, per, cells, motif, fn, size):
    got, err = call(fn, size)
    f = {}
    if not err:
        r.s = got
        r.V = [[x * c for x in v] for v, c in zip(V, cells)]
        r.per = per
        f = {"lat": r.lat(got.lattice), "obs": r.obs()}
    r.t.ev("build", V=V, per=per, cells=list(cells), err=err,
           motif=[{**q, "cls": cc(q["cls"])} for q in motif], **f)


def huge(ctx, many, reload=False):
    """Structures with more than a thousand sites."""
    rng = ctx.rng
    for n in range(many):
        def go(t, n=n):
            d = 2 if n % 3 else 3
            b = any_basis(rng, d)
            cells = [[11, 10, 10], [35, 30], [24, 23]][n % 3]
            motif = [{"cls": "A", "loc": [0] * d}]
            V, per = rand_V(rng, d, 2), rand_per(rng, d)
            if n % 3 == 2:
                V, per = [[2, 0], [rng.choice([0, 1]), 2]], [True, rng.random() < 0.5]
                motif.append({"cls": "B", "loc": [1, 1]})
            m = {q["cls"]: [b.cart(q["loc"], rng)] for q in motif}
            r = Rec(t, ctx, b)
            record_build(r, V, per, cells, motif,
                         StructureBuilder(mklattice(rng, b, V, per), m).build, tuple(cells))
            if reload:
                r.set_state()
                r.reload(rng.randrange(7))
            r.finds(8)
            locs = [b.ints(x[LOCATION]) for x in r.s.sites()]
            for i in (0, 1, 17, 500, -1):
                r.find(shift(rng, r.V, r.per, locs[i]))
            r.add("B", shift(rng, r.V, r.per, locs[rng.choice([0, 3, -1])]))
        ctx.case(f"huge{n}", go)


def g03(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(170, 2500)):
        ctx.case(f"build{n}", lambda t: build_case(ctx, t, max_cells=rng.choice([12, 30, 60])))
    for n in range(ctx.pick(30, 200)):
        def go(t, n=n):
            kind = n % 3
            b, d, cls, loc, V, B = [
                (cubic(2, 1), 2, "_A", [0, 0], [[0, 1], [1, 0]], SimpleSquare2DStructureBuilder),
                (cubic(3, 1), 3, "_A", [0, 0, 0], [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
                 SimpleSquare3DStructureBuilder),
                (hexa(2), 2, "A", [1, 1], [[2, 0], [0, 2]], HoneycombTilingBuilder)][kind]
            r = Rec(t, ctx, b)
            hi = 4 if d == 3 else 8
            if rng.random() < 0.5:
                size = rng.randrange(1, hi)
                cells = [size] * d
            else:
                cells = [rng.randrange(1, hi) for _ in range(d)]
                size = tuple(cells)
            record_build(r, V, [True] * d, cells, [{"cls": cls, "loc": loc}], B().build, size)
            r.finds(4)
        ctx.case(f"named{n}", go)
    huge(ctx, ctx.pick(3, 12))
    for n in range(ctx.pick(15, 60)):
        def go(t, n=n):
            d = rng.choice([2, 3])
            b = cubic(d, 1)
            V = rand_V(rng, d)
            bad = tuple(rng.randrange(1, 4) for _ in range(rng.choice(
                [k for k in range(5) if k != d])))
            r = Rec(t, ctx, b)
            B = StructureBuilder(mklattice(rng, b, V, [True] * d), {"A": [b.cart([0] * d)]})
            if n % 3 == 0:
                B = SimpleSquare2DStructureBuilder() if d == 2 else SimpleSquare3DStructureBuilder()
            record_build(r, V, [True] * d, bad, [{"cls": "A", "loc": [0] * d}], B.build, bad)
        ctx.case(f"wrong{n}", go)


def g04(ctx):
    rng = ctx.rng
    for n, sc in pick_scripts(ctx, 100, 3000, has("reload")):
        scripted(ctx, n, sc)
    for n in range(ctx.pick(90, 1200)):
        ctx.case(f"history{n}", lambda t: history(ctx, t, reloads=True))
    for n in range(ctx.pick(40, 400)):
        def go(t):
            # more than ten sites, so that the order of the keys as text matters
            r = build_case(ctx, t, finds=0, max_cells=40)
            r.set_state()
            for _ in range(2):
                r.reload(rng.randrange(7))
                r.finds(5)
        ctx.case(f"built{n}", go)
    for n in range(ctx.pick(3, 12)):
        def go(t, n=n):
            # more than a hundred sites
            b = any_basis(rng, 2)
            cells = [rng.randrange(10, 13), 11]
            r = Rec(t, ctx, b)
            V = rand_V(rng, 2, 2)
            record_build(r, V, [True, True], cells, [{"cls": "A", "loc": [0, 0]}],
                         StructureBuilder(mklattice(rng, b, V, [True, True]),
                                          {"A": [b.cart([0, 0])]}).build, tuple(cells))
            r.set_state()
            for h in rng.sample(range(7), 2):
                r.reload(h)
            r.finds(3)
        ctx.case(f"large{n}", go)
    huge(ctx, ctx.pick(2, 6), reload=True)


def g05(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(130, 1500)):
        def go(t):
            d = rng.choice([1, 2, 2, 2, 2, 2, 3, 3, 4])
            b = any_basis(rng, d)
            r = Rec(t, ctx, b)
            V = rand_V(rng, d, 5 if d < 3 else 3)
            per = rand_per(rng, d)
            if d < 3 and rng.random() < 0.25:
                # a cell much larger than the distances in it
                V = rand_V(rng, d, 3, skew=False)
                # (TLC counts up to 2^31)
                big = rng.choice([100, 1000] if max(max(g) for g in b.gram) <= 2 else [30, 100])
                V = [[x * big for x in v] for v in V]
            L = mklattice(rng, b, V, per)
            for p in rand_points(rng, V, per, 8):
                at = b.cart(p, rng)
                got, err = call(lambda at=at: L.get_periodized_cartesian_coords(at))
                again, err2 = call(lambda g=got: L.get_periodized_cartesian_coords(g))
                err = err or err2
                t.ev("wrap", V=V, per=per, loc=p, err=err,
                     **({} if err else {"got": b.ints(got), "again": b.ints(again), "arg": b.ints(at)}))
            pts = rand_points(rng, V, per, 8 if d < 3 else 5)
            for p, q in zip(pts, pts[1:] + pts[:1]):
                k = bound(b, V, per, [x - y for x, y in zip(p, q)])
                if (2 * k + 1) ** sum(per) > 4000 or \
                        not fits(b, V, per, [x - y for x, y in zip(p, q)], k):
                    continue

                def dist(x, y):
                    if rng.random() < 0.5:
                        v = L.cartesian_periodic_distance(b.cart(x, rng), b.cart(y, rng))
                    else:
                        v = pbc_diff_cart(b.cart(x, rng), b.cart(y, rng), L)
                    return b.range(float(v)), float(v)

                def four():
                    return [dist(p, q), dist(q, p)] + [
                        dist(shift(rng, V, per, p), shift(rng, V, per, q)) for _ in range(3)]
                got, err = call(four)
                t.ev("dist", V=V, per=per, a=p, b=q, k=k, err=err,
                     **({} if err else {"d": got[0][0], "back": got[1][0],
                                        "zero": all(x[1] == 0 for x in got),
                                        "val": str(got[0][1]),
                                        "images": [x[0] for x in got[2:]]}))
        ctx.case(f"lattice{n}", go)
    for n in range(ctx.pick(40, 400)):
        def go(t):
            # fractional coordinates, in units of 1/D of each vector
            d = rng.choice([1, 2, 3, 4])
            D = rng.choice([1, 2, 3, 4, 7, 10, 16])
            b = Basis([[1 / D if i == j else 0 for j in range(d)] for i in range(d)])
            Rec(t, ctx, b)
            V = [[D if i == j else 0 for j in range(d)] for i in range(d)]
            per = rand_per(rng, d)
            arg = per[0] if len(set(per)) == 1 and rng.random() < 0.7 else tuple(per)
            for _ in range(10):
                p = [rng.randrange(-3 * D, 3 * D + 1) for _ in range(d)]
                x = np.array([c / D for c in p]) if rng.random() < 0.7 else \
                    np.array([sum([1 / D] * abs(c)) * (1 if c > 0 else -1) for c in p])
                got, err = call(lambda: periodize(x, arg))
                again, err2 = call(lambda: periodize(got, arg))
                err = err or err2
                t.ev("wrap", V=V, per=per, loc=p, err=err,
                     **({} if err else {"got": b.ints(got), "again": b.ints(again), "arg": b.ints(x)}))
        ctx.case(f"frac{n}", go)


def whole(v, unit):
    """v as a vector of integers, in the given unit."""
    v = [float(x) / unit for x in v]
    r = [int(round(x)) for x in v]
    return r if all(abs(x - y) < 1e-6 * max(1, abs(y)) for x, y in zip(v, r)) else [OFF] * len(v)


def g06(ctx):
    rng = ctx.rng

    def ints(b, v, den):
        return whole(np.array([float(x) for x in v]) @ b.inv, 1 / den)

    def seq(v):
        return rng.choice([tuple, list, np.array])(v)

    for n in range(ctx.pick(160, 2000)):
        def go(t):
            d = rng.choice([1, 2, 2, 2, 2, 2, 3, 3, 4])
            b = any_basis(rng, d)
            r = Rec(t, ctx, b)
            V, per = rand_V(rng, d, 5 if d < 3 else 3), rand_per(rng, d)
            vecs = [b.cart(v, rng) for v in V]
            kind = rng.randrange(3)
            if kind:
                vecs = [[float(x) for x in v] for v in vecs]
            if kind == 2:
                vecs = np.array(vecs)
            p = per_arg(rng, per)
            L = Lattice(vecs) if all(per) and rng.random() < 0.3 else Lattice(vecs, p)
            if rng.random() < 0.5:
                # the caller goes on to use its vectors for something else
                if kind == 2:
                    vecs += 1.5
                elif kind == 1:
                    vecs[0][0] += 1.5
                if isinstance(p, list):
                    p[0] = not p[0]
            for again in range(2):
                t.ev("lattice", V=V, per=per, lat=r.lat(L), dim=int(L.dim),
                     lens=[b.range(float(x), 1e-6 * max(1, float(x))) for x in L.vec_lengths])
                vol = abs(det(V))
                for loc in rand_points(rng, V, per, 4):
                    got, err = call(lambda: L.get_fractional_coords(b.cart(loc, rng)))
                    back, err2 = call(lambda: L.get_cartesian_coords(got))
                    t.ev("tofrac", V=V, loc=loc, err=err,
                         **({} if err else {"got": whole(got, 1 / vol)}))
                    # and back
                    c = [0] * d if err else whole(got, 1 / vol)
                    t.ev("tocart", V=V, n=c, den=vol, err=err or err2,
                         **({} if err or err2 else {"got": ints(b, back, vol)}))
                for _ in range(4):
                    den = rng.choice([1, 1, 2, 3, 7, 10])
                    c = [rng.randrange(-3 * den, 3 * den + 1) for _ in range(d)]
                    got, err = call(lambda: L.get_cartesian_coords(seq([x / den for x in c])))
                    t.ev("tocart", V=V, n=c, den=den, err=err,
                         **({} if err else {"got": ints(b, got, den)}))
                if again:
                    break
                # several points at once
                many = rand_points(rng, V, per, rng.choice([1, 2, d, 5]))
                got, err = call(lambda: np.array(L.get_fractional_coords(
                    np.array([b.cart(q) for q in many], dtype=float))))
                back, err2 = call(lambda: np.array(L.get_cartesian_coords(got)))
                if not err and got.shape != (len(many), d):
                    err = "shape"
                if not err and not err2 and back.shape != got.shape:
                    err2 = "shape"
                for x, loc in enumerate(many):
                    t.ev("tofrac", V=V, loc=loc, err=err,
                         **({} if err else {"got": whole(got[x], 1 / vol)}))
                    c = [0] * d if err else whole(got[x], 1 / vol)
                    t.ev("tocart", V=V, n=c, den=vol, err=err or err2,
                         **({} if err or err2 else {"got": ints(b, back[x], vol)}))
                cells = [rng.choice([1, 1, 2, 3, 5]) for _ in range(d)]
                S, err = call(L.get_scaled_lattice, seq(cells))
                t.ev("scaled", V=V, per=per, cells=cells, err=err,
                     **({} if err else {"lat": r.lat(S)}))
                # the first lattice is as it was, and the scaled one is a lattice
                if not err and rng.random() < 0.6:
                    L, V = S, [[x * c for x in v] for v, c in zip(V, cells)]
            for _ in range(4):
                den = rng.choice([1, 2, 3, 4, 7, 10])
                x, y = ([rng.randrange(-3 * den, 3 * den + 1) for _ in range(d)] for _ in "ab")
                m = per if rng.random() < 0.5 else [int(q) for q in per]
                m = rng.choice([tuple, np.array])(m)
                got, err = call(pbc_diff_frac_vec, seq([q / den for q in x]),
                                seq([q / den for q in y]), m)
                t.ev("fdiff", a=x, b=y, den=den, per=per, err=err,
                     **({} if err else {"got": whole(got, 1 / den)}))
        ctx.case(f"convert{n}", go)
    for n in range(ctx.pick(20, 100)):
        def go(t):
            Rec(t, ctx, cubic(1, 1))
            k = rng.randrange(1, 4)
            lens = [k + rng.choice([0, 0, 1]) for _ in range(k)]
            vecs = [[float(i == j) for j in range(m)] for i, m in enumerate(lens)]
            L, err = call(Lattice, vecs)
            t.ev("uneven", lens=lens, err=err)
        ctx.case(f"uneven{n}", go)
