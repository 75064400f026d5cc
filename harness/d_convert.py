"""Conversion to and from pymatgen: C01."""
import copy

import numpy as np
from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import PeriodicStructure
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pymatgen.core.lattice import Lattice as PmgLattice
from pymatgen.core.structure import Structure as PmgStructure

from d_neighbors import equiv
from d_structure import any_basis, det, mklattice, rand_per, rand_V, shift
from lib import call

SPECIES = ["Na", "Cl", "O", "Fe", "X0+", "Na+", "O2-", "Fe3+"]


def pyl(b, s):
    return {"V": [b.ints(v) for v in s.lattice.vecs], "per": [bool(x) for x in s.lattice.periodic],
            "sites": [{"cls": s.site_class(i), "loc": b.ints(s.site_location(i))}
                      for i in s.site_ids]}


def pmg(b, s):
    return {"V": [b.ints(v) for v in s.lattice.matrix], "per": [bool(x) for x in s.lattice.pbc],
            "sites": [{"cls": x.species_string, "loc": b.ints(x.coords)} for x in s.sites]}


def points(rng, V, per, n):
    out = []
    for _ in range(5 * n):
        p = [rng.randrange(-2, 5) for _ in range(3)]
        if len(out) < n and not any(equiv(V, per, p, q) for q in out):
            out.append(p)
    return out


def c01(ctx):
    rng = ctx.rng
    C = PymatgenStructureConverter()

    def crystal(many=False):
        b = any_basis(rng, 3)
        while many:
            V, per = rand_V(rng, 3, 7), rand_per(rng, 3)
            if 80 <= abs(det(V)) <= 220:
                n = rng.choice([21, 40, 66, 75])
                pts = points(rng, V, [True] * 3, n)
                if len(pts) == n:
                    return b, V, per, pts
        while True:
            V, per = rand_V(rng, 3, 3), rand_per(rng, 3)
            if abs(det(V)) <= 60:
                return b, V, per, points(rng, V, per, rng.choice([0, 1, 2, 4, 7]))

    def back(t, b, p, cells=None):
        was = pmg(b, p)
        if rng.random() < 0.5:
            L, err = call(C.to_pylattica_lattice, p.lattice)
            t.ev("topyllat", err=err, **({} if err else {"got": {
                "V": [b.ints(v) for v in L.vecs], "per": [bool(x) for x in L.periodic]}}))
        got, err = call(C.to_pylattica_structure_and_state, p)
        f = {"err": err}
        s = None
        if not err:
            s, state = got
            f["got"] = pyl(b, s)
            f["occ"] = [state.get_site_state(i)[OCC] for i in s.site_ids]
        t.ev("topyl", **f)
        at = [x["loc"] for x in was["sites"]]
        clash = any(equiv(was["V"], [True] * 3, x, y) for i, x in enumerate(at) for y in at[:i])
        if rng.random() < 0.3 and at and not clash and abs(det(was["V"])) * len(p) < 80:
            cells = [rng.choice([1, 2]) for _ in range(3)]
            B, err = call(C.to_pylattica_structure_builder, p)
            big, err = (None, err) if err else call(B.build, tuple(cells))
            t.ev("tiled", cells=cells, err=err, **({} if err else {"got": pyl(b, big)}))
        t.ev("unchanged", was=was, now=pmg(b, p))
        return s

    def forth(t, b, s):
        was = pyl(b, s)
        if rng.random() < 0.5:
            L, err = call(C.to_pymatgen_lattice, s.lattice)
            t.ev("topmglat", err=err, **({} if err else {"got": {
                "V": [b.ints(v) for v in L.matrix], "per": [bool(x) for x in L.pbc]}}))
        p, err = call(C.to_pymatgen_structure, s)
        t.ev("topmg", err=err, **({} if err else {"got": pmg(b, p)}))
        t.ev("unchanged", was=was, now=pyl(b, s))
        return p

    for n in range(ctx.pick(110, 1200)):
        def go(t, n=n):
            b, V, per, pts = crystal(n % 28 == 27)
            s = PeriodicStructure(mklattice(rng, b, V, per))
            for p in pts:
                s.add_site(rng.choice(SPECIES), b.cart(p, rng))
            t.ev("pyl", **{"is": pyl(b, s)})
            p = forth(t, b, s)
            if p is not None and len(pts):
                s = back(t, b, p)
                if s is not None and rng.random() < 0.3:
                    forth(t, b, s)
        ctx.case(f"forth{n}", go)
    for n in range(ctx.pick(110, 1200)):
        def go(t, n=n):
            b, V, per, pts = crystal(n % 28 == 27)
            pts = [shift(rng, V, per, p, False, 1) if rng.random() < 0.4 else p for p in pts]
            mixed = n % 6 == 5
            sp = [{"Na": 0.5, "K": 0.5} if mixed and rng.random() < 0.5 else rng.choice(SPECIES)
                  for _ in pts]
            L = PmgLattice([b.cart(v) for v in V], pbc=tuple(per))
            if rng.random() < 0.5:
                p = PmgStructure(L, copy.deepcopy(sp), [b.cart(x) for x in pts],
                                 coords_are_cartesian=True)
            else:
                fr = [np.array(b.cart(x)) @ np.linalg.inv(L.matrix) for x in pts]
                p = PmgStructure(L, copy.deepcopy(sp), fr)
            t.ev("pmg", **{"is": pmg(b, p)})
            s = back(t, b, p)
            if s is not None and not mixed:
                forth(t, b, s)
        ctx.case(f"back{n}", go)
