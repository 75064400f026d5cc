"""Neighborhoods: N01 - N05."""
import math

import numpy as np
from pylattica.core import PeriodicStructure
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder)
from pylattica.core.neighborhoods import SiteClassNeighborhood, StochasticNeighborhood
from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder
from pylattica.structures.square_grid import (SimpleSquare2DStructureBuilder,
                                              SimpleSquare3DStructureBuilder)
from pylattica.structures.square_grid.neighborhoods import (
    CircularNeighborhoodBuilder, MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder,
    VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

from d_structure import Basis, any_basis, bound, eye, hexa, mklattice, rand_per, rand_V, shift
from lib import call

CLS = ["A", "B", "C"]


def equiv(V, per, p, q):
    n = (np.array(p) - np.array(q)) @ np.linalg.inv(np.array(V, dtype=float))
    return all(abs(x - round(x)) < 1e-9 if c else abs(x) < 1e-9 for x, c in zip(n, per))


def spoil(got):
    """The caller goes on to use the list it was given for something else."""
    if isinstance(got, list):
        got.clear()
        got.append(0)


class Nbs:
    """One structure with a number of neighborhoods."""

    names = {}          # what the classes are really called, when it is something else

    def real(self, c):
        return self.names.get(c, c)

    def __init__(self, t, ctx, b, V, per, sites, struct):
        self.t, self.ctx, self.rng, self.b = t, ctx, ctx.rng, b
        self.V, self.per, self.sites, self.struct = V, per, sites, struct
        t["V"], t["per"], t["gram"], t["sites"], t["rules"] = V, per, b.gram, sites, []
        self.rules = t.d["rules"]
        locs = [s["loc"] for s in sites]
        far = [[x - y for x, y in zip(p, q)] for p in locs for q in locs]
        t["k"] = max([0] + [bound(b, V, per, d) for d in far]) if any(per) else 0

    def rule(self, r):
        self.rules.append(r)
        return len(self.rules)

    def query(self, r, nb, cls="", sites=None, symmetric=False):
        n = len(self.sites)
        ids = range(n) if sites is None else sites
        pairs = []
        tol = 0.00051 if self.rules[r - 1]["kind"] == "ring" else 0.00505
        for i in ids:
            w = self.rng.random() < 0.5
            got, err = call(nb.neighbors_of, i, include_weights=True) if w \
                else call(nb.neighbors_of, i)
            f = {}
            if not err:
                f["got"] = [int(x[0] if w else x) for x in got]
                f["w"] = []
                if w:
                    f["w"] = [self.b.range(float(x[1]), tol) for x in got]
                pairs += [[i, j] for j in f["got"]]
                spoil(got)
            self.t.ev("query", rule=r, cls=cls, site=i, weighted=w, err=err, **f)
        if symmetric:
            self.t.ev("symmetric", pairs=pairs)

    def all(self, r, nb, i, parts, cls=""):
        seen, err = set(), ""
        for k in range(70 * parts):
            got, err = call(nb.neighbors_of, i)
            if err:
                break
            seen.add(tuple(sorted(int(x) for x in got)))
            spoil(got)
        self.t.ev("all", rule=r, cls=cls, site=i, err=err, gots=[list(s) for s in sorted(seen)])


def decoy(rng, h, b):
    """The builder is used for another structure, or for a class, before."""
    if rng.random() < 0.3:
        b.get(h.struct, site_class=h.real(rng.choice(CLS)))
    if rng.random() < 0.4:
        s = PeriodicStructure(h.struct.lattice)
        n = len(h.sites) + rng.choice([-1, 0, 0, 1])
        for _ in range(4 * max(1, n)):
            if len(s.site_ids) < n:
                call(s.add_site, h.real(rng.choice(CLS)),
                     h.b.cart([rng.randrange(-3, 5) for _ in range(h.b.d)], rng))
        call(b.get, s)
    return b


def random_struct(ctx, t, d=None, n=None, classes=3):
    """A structure with few images of a site to consider."""
    while True:
        h = any_struct(ctx, t, d, n, classes)
        if (2 * h.t.d["k"] + 1) ** sum(h.per) <= (1500 if h.b.d < 4 else 30):
            return h


def any_struct(ctx, t, d, n, classes):
    rng = ctx.rng
    d = d or rng.choice([1, 2, 2, 2, 2, 3, 3, 4])
    b = any_basis(rng, d)
    while True:
        V, per = rand_V(rng, d, 5 if d < 3 else 3), rand_per(rng, d)
        if bound(b, V, per, [3] * d) <= (6 if d < 3 else 3 if d == 3 else 2):
            break
    s = PeriodicStructure(mklattice(rng, b, V, per))
    sites = []
    n = n or rng.choice([1, 3, 6, 9] if d < 3 else [1, 3, 5])
    n = min(n, 4) if d > 3 else n
    names = {"C": rng.choice(["", "", 0, " ", "a", ("A", 1)])} if rng.random() < 0.6 else {}
    for _ in range(4 * n):
        p = [rng.randrange(-3, 5) for _ in range(d)]
        if len(sites) < n and not any(equiv(V, per, p, q["loc"]) for q in sites):
            c = rng.choice(CLS[:classes])
            s.add_site(names.get(c, c), b.cart(p, rng))
            sites.append({"cls": c, "loc": p})
    h = Nbs(t, ctx, b, V, per, sites, s)
    h.names = names
    return h


def rand_disps(rng, h, k=None):
    d = h.b.d
    out = []
    locs = [s["loc"] for s in h.sites]
    for _ in range(k or rng.choice([0, 1, 3, 6])):
        r = rng.random()
        if r < 0.6:
            p, q = rng.choice(locs), rng.choice(locs)
            v = shift(rng, h.V, h.per, [x - y for x, y in zip(p, q)], rng.random() < 0.2, 1)
        else:
            v = [rng.randrange(-3, 4) for _ in range(d)]
        out.append(v)
        if rng.random() < 0.4:
            out.append([-x for x in v])
    return out


def motif_rule(rng, h, disps=None):
    disps = rand_disps(rng, h) if disps is None else disps
    b = MotifNeighborhoodBuilder([rng.choice([tuple, list])(h.b.cart(v)) for v in disps])
    return {"kind": "motif", "disps": disps}, b


def quad(h, v):
    return sum(v[i] * h.b.gram[i][j] * v[j] for i in range(h.b.d) for j in range(h.b.d))


def cut(rng, h, hi=None):
    """(cutoff, lower threshold q > lo, upper threshold q < up) for squared distances."""
    s = h.b.scale
    locs = [x["loc"] for x in h.sites]
    for _ in range(200):
        v = [x - y for x, y in zip(rng.choice(locs), rng.choice(locs))] if rng.random() < 0.7 else \
            [rng.randrange(-3, 4) for _ in range(h.b.d)]
        k = quad(h, v)
        if hi is not None and k >= hi:
            continue
        exact = math.sqrt(k / s)
        if rng.random() < 0.5 and abs(exact * 1000 - round(exact * 1000)) < 1e-7:
            return round(exact, 3), k, k
        c = math.sqrt((k + 0.5) / s)
        if c - exact > 0.0012 and math.sqrt((k + 1) / s) - c > 0.0012:
            return c, k, k + 1
    return 0.0, -1, 0


def ring_rule(rng, h, annular=None):
    if annular is None:
        annular = rng.random() < 0.4
    c, _, up = cut(rng, h)
    if not annular:
        return {"kind": "ring", "inner": -1, "outer": up}, DistanceNeighborhoodBuilder(c)
    i, lo, _ = cut(rng, h, up)
    return {"kind": "ring", "inner": lo, "outer": up}, AnnularNeighborhoodBuilder(i, c)


def many(ctx, t, rule):
    """A structure of up to some hundred sites, a few of which are asked for."""
    rng = ctx.rng
    d = rng.choice([2, 2, 3])
    b = any_basis(rng, d)
    large = rng.random() < 0.2
    hi = (24 if d == 2 else 9) if large else (14 if d == 2 else 6)
    V = [[rng.randrange(hi - 4, hi) if i == j else 0 for j in range(d)] for i in range(d)]
    per = rand_per(rng, d)
    s = PeriodicStructure(mklattice(rng, b, V, per))
    pts = [[]]
    for i in range(d):
        pts = [p + [x] for p in pts for x in range(V[i][i])]
    rng.shuffle(pts)
    sites = []
    for p in pts[: 520 if large else rng.choice([20, 40, 70, 110])]:
        c = rng.choices(CLS, [1, 50, 50])[0] if large else rng.choice(CLS)
        s.add_site(c, b.cart(p, rng))
        sites.append({"cls": c, "loc": p})
    h = Nbs(t, ctx, b, V, per, sites, s)
    r, B = rule(rng, h)
    if large:
        few = [i for i, x in enumerate(sites) if x["cls"] == "A"]
        ask = [*few[:1], *few[-1:], rng.randrange(len(sites))]
        h.query(h.rule(r), B.get(s, site_class="A"), "A", sites=ask)
        return
    ask = {0, len(sites) - 1, *rng.sample(range(len(sites)), 4)}
    h.query(h.rule(r), B.get(s), sites=sorted(ask))


def n01(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(120, 1500)):
        def go(t):
            h = random_struct(ctx, t)
            for _ in range(2):
                r, b = motif_rule(rng, h)
                decoy(rng, h, b)
                k = h.rule(r)
                c = rng.choice(["", "", "A", "B", "C", "C", "none"])
                h.query(k, b.get(h.struct, site_class=h.real(c)) if c else b.get(h.struct), c)
        ctx.case(f"motif{n}", go)
    for n in range(ctx.pick(10, 80)):
        ctx.case(f"many{n}", lambda t: many(ctx, t, motif_rule))
    for n in range(ctx.pick(15, 150)):
        def go(t):
            # all displacements between the sites of a denser structure
            h = random_struct(ctx, t, d=2, n=14)
            locs = [s["loc"] for s in h.sites]
            ds = [[x - y for x, y in zip(p, locs[0])] for p in locs]
            r, b = motif_rule(rng, h, ds)
            h.query(h.rule(r), b.get(h.struct))
        ctx.case(f"dense{n}", go)


def n02(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(110, 1200)):
        def go(t):
            h = random_struct(ctx, t)
            for ann in (False, True):
                r, b = ring_rule(rng, h, ann)
                decoy(rng, h, b)
                k = h.rule(r)
                c = rng.choice(["", "", "A", "C"])
                h.query(k, b.get(h.struct, site_class=h.real(c)) if c else b.get(h.struct), c,
                        symmetric=not c)
        ctx.case(f"ring{n}", go)


    for n in range(ctx.pick(10, 100)):
        ctx.case(f"many{n}", lambda t: many(ctx, t, ring_rule))


def n03(ctx):
    rng = ctx.rng

    def base(h):
        return motif_rule(rng, h, rand_disps(rng, h, 3)) if rng.random() < 0.6 else ring_rule(rng, h)

    def stoch(h, k=None):
        parts = [base(h) for _ in range(k or rng.choice([1, 2, 3, 4, 5, 8]))]
        return ({"kind": "stoch", "parts": [p for p, _ in parts]},
                StochasticNeighborhoodBuilder([b for _, b in parts]))

    def some(h):
        return stoch(h) if rng.random() < 0.4 else base(h)

    for n in range(ctx.pick(90, 1000)):
        def go(t):
            h = random_struct(ctx, t, n=rng.choice([3, 5, 7]))
            kind = rng.randrange(5)
            c = ""
            if kind == 0:
                r, b = stoch(h)
                decoy(rng, h, b)
                c = rng.choice(["", "A", "B", "C", "C"])
                nb = b.get(h.struct, site_class=h.real(c)) if c else b.get(h.struct)
            elif kind == 4:
                # nested: a choice between class-dependent neighborhoods
                rs, bs = [], []
                for _ in range(2):
                    m = {k: some(h) for k in rng.sample(CLS, rng.randrange(1, 4))}
                    rs.append({"kind": "class", "of": {k: v[0] for k, v in m.items()}})
                    bs.append(SiteClassNeighborhoodBuilder({h.real(k): v[1] for k, v in m.items()}))
                r = {"kind": "stoch", "parts": rs}
                if rng.random() < 0.3:
                    nb = StochasticNeighborhood([b.get(h.struct) for b in bs])
                elif rng.random() < 0.6:
                    nb = StochasticNeighborhoodBuilder(bs).get(h.struct)
                else:
                    # a class of sites that chooses between class-dependent ones
                    r = {"kind": "class", "of": {"A": r}}
                    nb = SiteClassNeighborhoodBuilder(
                        {"A": StochasticNeighborhoodBuilder(bs)}).get(h.struct)
            else:
                m = {k: some(h) for k in rng.sample(CLS, rng.randrange(0, 4))}
                r = {"kind": "class", "of": {k: v[0] for k, v in m.items()}}
                if kind == 3 and rng.random() < 0.5:
                    # of neighborhoods that know about all sites
                    nb = SiteClassNeighborhood(h.struct, {
                        h.real(k): v[1].get(h.struct) for k, v in m.items()})
                elif kind == 3:
                    nb = SiteClassNeighborhood(h.struct, {
                        h.real(k): v[1].get(h.struct, site_class=h.real(k))
                        for k, v in m.items()})
                else:
                    nb = decoy(rng, h, SiteClassNeighborhoodBuilder(
                        {h.real(k): v[1] for k, v in m.items()}))
                    if rng.random() < 0.4:
                        c = rng.choice(["A", "C", "C"])
                        nb = nb.get(h.struct, site_class=h.real(c))
                    else:
                        nb = nb.get(h.struct)
            k = h.rule(r)
            for _ in range(3):
                h.query(k, nb, c)
            for i in rng.sample(range(len(h.sites)), min(2, len(h.sites))):
                h.all(k, nb, i, 8, c)
        ctx.case(f"mix{n}", go)


def grid(ctx, t, dims):
    """A square grid with the given number of cells along x, y (and z)."""
    b = SimpleSquare2DStructureBuilder() if len(dims) == 2 else SimpleSquare3DStructureBuilder()
    size = (dims[1], dims[0], *dims[2:])           # the first lattice vector is along y
    s = b.build(size[0] if len(set(size)) == 1 and ctx.rng.random() < 0.5 else tuple(size))
    V = [[dims[i] if i == j else 0 for j in range(len(dims))] for i in range(len(dims))]
    sites = [{"cls": "_A", "loc": [int(round(x)) for x in s.site_location(i)]} for i in s.site_ids]
    h = Nbs.__new__(Nbs)
    h.t, h.ctx, h.rng, h.b = t, ctx, ctx.rng, Basis(eye(len(dims)), eye(len(dims)), 1)
    h.V, h.per, h.sites, h.struct = V, [True] * len(dims), sites, s
    t["V"], t["per"], t["gram"], t["sites"], t["rules"], t["k"] = \
        V, h.per, h.b.gram, sites, [], 1
    h.rules = t.d["rules"]
    return h


def decoy_grid(ctx, B, d):
    """The builder is used for a grid of another shape before."""
    if ctx.rng.random() < 0.4:
        G = SimpleSquare2DStructureBuilder() if d == 2 else SimpleSquare3DStructureBuilder()
        B.get(G.build(tuple(ctx.rng.randrange(1, 5) for _ in range(d))))
    return B


def n04(ctx):
    rng = ctx.rng

    def some(h, k=8):
        n = len(h.sites)
        return rng.sample(range(n), min(n, k))

    for n in range(ctx.pick(60, 600)):
        def go(t):
            d = rng.choice([2, 2, 3])
            hi = 8 if d == 2 else 5
            dims = [rng.randrange(1, hi)] * d if rng.random() < 0.4 else \
                [rng.randrange(1, hi) for _ in range(d)]
            h = grid(ctx, t, dims)
            r = rng.choice([0, 1, 1, 2, 2, 3, 4] if d == 2 else [1, 1, 2, 3])
            k = h.rule({"kind": "moore", "r": r, "n": dims})
            B = MooreNbHoodBuilder(r, d) if d == 3 or rng.random() < 0.5 else \
                MooreNbHoodBuilder() if r == 1 and rng.random() < 0.5 else MooreNbHoodBuilder(r)
            ids = some(h)
            nb = decoy_grid(ctx, B, d).get(h.struct)
            plain(h, k, nb, ids)
            r = rng.choice([0, 1, 1, 2, 3, 4] if d == 2 else [1, 2, 3])
            k = h.rule({"kind": "neumann", "r": r, "n": dims})
            B = (VonNeumannNbHood3DBuilder(r) if d == 3 else
                 VonNeumannNbHood2DBuilder() if r == 1 and rng.random() < 0.5 else
                 VonNeumannNbHood2DBuilder(r))
            plain(h, k, decoy_grid(ctx, B, d).get(h.struct), some(h))
            if len(h.sites) <= 30:
                q = rng.randrange(0, 14)
                k = h.rule({"kind": "ring", "inner": -1, "outer": q + 1})
                plain(h, k, CircularNeighborhoodBuilder(math.sqrt(q + 0.5)).get(h.struct), some(h, 5))
        ctx.case(f"grid{n}", go)
    for n in range(ctx.pick(5, 20)):
        def go(t, n=n):
            # large neighborhoods
            d = 2 if n % 5 < 4 else 3
            dims = [rng.randrange(11, 20) for _ in range(d)] if d == 2 else [7, 8, 7]
            h = grid(ctx, t, dims)
            r = rng.choice([5, 6, 8]) if d == 2 else 3
            if n % 2:
                k = h.rule({"kind": "neumann", "r": r, "n": dims})
                B = (VonNeumannNbHood2DBuilder if d == 2 else VonNeumannNbHood3DBuilder)(r)
            else:
                k = h.rule({"kind": "moore", "r": r, "n": dims})
                B = MooreNbHoodBuilder(r, d)
            plain(h, k, B.get(h.struct), some(h, 2))
        ctx.case(f"wide{n}", go)
    for n in range(ctx.pick(36, 300)):
        def go(t, n=n):
            kind = n % 3
            d = 3 if kind == 2 else 2
            hi = 7 if d == 2 else 5
            dims = [rng.randrange(1, hi) for _ in range(d)]
            if n % 2:
                dims = [rng.randrange(3, hi)] * d
            h = grid(ctx, t, dims)
            B = [PseudoHexagonalNeighborhoodBuilder2D, PseudoPentagonalNeighborhoodBuilder,
                 PseudoHexagonalNeighborhoodBuilder3D][kind]()
            k = h.rule({"kind": ["hex2", "pent", "hex3"][kind]})
            nb = decoy_grid(ctx, B, d).get(h.struct)
            plain(h, k, nb, some(h, 4) * 2)
            h.all(k, nb, rng.randrange(len(h.sites)), 4)
        ctx.case(f"pseudo{n}", go)
    for n in range(ctx.pick(12, 80)):
        def go(t, n=n):
            dims = (rng.randrange(1, 6), rng.randrange(1, 6))
            size = dims[0] if n % 3 == 0 else dims
            dims = (size, size) if n % 3 == 0 else dims
            s = HoneycombTilingBuilder().build(size)
            b = hexa(2)
            V = [[2 * dims[0], 0], [0, 2 * dims[1]]]
            sites = [{"cls": "A", "loc": b.ints(s.site_location(i))} for i in s.site_ids]
            h = Nbs(t, ctx, b, V, [True, True], sites, s)
            k = h.rule({"kind": "ring", "inner": 7, "outer": 9})
            h.query(k, HoneycombNeighborhoodBuilder().get(s), symmetric=True)
        ctx.case(f"honeycomb{n}", go)


def plain(h, k, nb, ids):
    for i in ids:
        got, err = call(nb.neighbors_of, i)
        h.t.ev("query", rule=k, cls="", site=i, weighted=False, w=[], err=err,
               **({} if err else {"got": [int(x) for x in got]}))
        if not err:
            spoil(got)


# N05 ------------------------------------------------------------------------
def n05(ctx):
    from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
    from pylattica.core.distance_map import (DistanceMap, EuclideanDistanceMap,
                                             ManhattanDistanceMap, distance)
    rng = ctx.rng
    for n in range(ctx.pick(60, 600)):
        def go(t):
            d = rng.choice([1, 2, 2, 3, 3])
            h = rng.choice([1, 1, 2, 4, 10, 3, 1000, 1000])       # locations are multiples of 1/h
            hi = rng.choice([1, 2, 5, 30]) * h
            if hi > 90:
                hi = 90 if h < 1000 else rng.choice([900, 5000])
            vs = [[rng.randrange(-hi, hi + 1) for _ in range(d)] for _ in range(rng.choice([0, 1, 4, 9]))]
            vs += [[-x for x in v] for v in vs if rng.random() < 0.2]
            vs += [[x if c == 0 else 0 for c, x in enumerate(v)] for v in vs if rng.random() < 0.2]
            if rng.random() < 0.3:
                vs.append([0] * d)
            if vs and rng.random() < 0.3:
                vs.append(list(rng.choice(vs)))

            def loc(v):
                # the same number every time, so that it is the same key
                return tuple(x // h if x % h == 0 else x / h for x in v)

            t.ev("locs", h=h, vs=vs)
            for kind, cls in [("euclid", EuclideanDistanceMap), ("manhattan", ManhattanDistanceMap)]:
                m, err = call(cls, [loc(v) for v in vs])
                t.ev("build", err=err)
                if err:
                    continue
                more = [[rng.randrange(-hi, hi + 1) for _ in range(d)] for _ in range(3)]
                if vs:                  # nearly one of those
                    more += [[x + rng.choice([-1, 0, 1]) for x in rng.choice(vs)] for _ in range(3)]
                for v in vs + more:
                    got, err = call(m.get_dist, loc(v))
                    f = {}
                    if not err:
                        f["known"] = got is not None
                        f["lo"], f["hi"] = _bounds(kind, got, h)
                    t.ev("length", kind=kind, v=v, err=err, **f)
            for v in vs[:4]:
                w = rng.choice(vs)
                mk = np.array
                got, err = call(distance, mk(loc(v)), mk(loc(w)))
                lo, hi2 = _bounds("euclid", got, h, 1e-7) if not err else (0, 0)
                t.ev("distance", v=v, w=w, err=err, lo=lo, hi=hi2)
        ctx.case(f"lengths{n}", go)
    for n in range(ctx.pick(50, 500)):
        def go(t):
            d = rng.choice([1, 2, 2, 3])
            w = {1: 40, 2: 9, 3: 5}[d]
            mk = rng.choice([list, tuple, np.array])
            lb = [rng.randrange(-6, 5) for _ in range(d)]
            ub = [x + rng.choice([0, 1, 2, w, -1, rng.randrange(w)]) for x in lb]
            got, err = call(get_points_in_box, mk(lb), mk(ub))
            t.ev("box", lb=lb, ub=ub, err=err,
                 **({} if err else {"got": [[int(x) for x in p] for p in got]}))
            lb, ub = rng.randrange(-6, 5), 0
            ub = lb + rng.choice([0, 1, 3, w, -1])
            got, err = call(get_points_in_cube, lb, ub, d)
            t.ev("box", lb=[lb] * d, ub=[ub] * d, err=err,
                 **({} if err else {"got": [[int(x) for x in p] for p in got]}))
        ctx.case(f"box{n}", go)


def _bounds(kind, got, h, tol=0.00501):
    """The squared lengths (or lengths, for Manhattan) of integer vectors, h to the
    unit, that agree with an answer."""
    if got is None:
        return 0, 0
    got = float(got)
    if kind == "manhattan":
        return math.ceil(h * got - 1e-6), math.floor(h * got + 1e-6)
    lo, hi = max(0.0, got - tol) * h, (got + tol) * h
    return math.ceil(lo * lo - 1e-9), math.floor(hi * hi + 1e-9)
