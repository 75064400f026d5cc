"""SimulationState: S01, S02."""
import copy
import json

from pylattica.core import SimulationState
from pylattica.core.constants import GENERAL, SITES

from lib import ckey, cid, cmap, cupd, cv, proj

KEYS = ["x", "y", "occ", "DISCRETE_OCCUPANCY", "k5", "SITESX", "general", "a.b", "\u00e9 \u2713", ""]


def rand_value(rng, depth=0):
    r = rng.random()
    # no 0 and 1: they equal False and True in Python, and not in JSON
    if r < 0.3:
        return rng.choice([-3, -2, -1, 2, 3, 4, 5, 6, 7, 8, 10**9])
    if r < 0.45:
        return rng.choice(["A", "B", "", "alive", "x y", "0", "\u00fc\u2192", 'q"\\', "None"])
    if r < 0.55:
        return rng.choice([None, True, False, 1.5, -0.25])
    if depth < 2 and r < 0.8:
        return [rand_value(rng, depth + 1) for _ in range(rng.randrange(3))]
    if depth < 2:
        return {rng.choice("pqr"): rand_value(rng, depth + 1) for _ in range(rng.randrange(3))}
    return rng.randrange(2, 7)


def rand_updates(rng, nested=False):
    n = rng.choice([0, 1, 1, 1, 2, 3])
    return {
        rng.choice(KEYS): [rand_value(rng, 1)] if nested and rng.random() < 0.6 else rand_value(rng)
        for _ in range(n)
    }


def dict_content(d):
    return {"s": {cid(i): cmap(u) for i, u in d.get(SITES, {}).items()},
            "g": cmap(d.get(GENERAL) or {})}


class World:
    """The objects of one case, and what is recorded about them."""

    def __init__(self, t):
        self.t, self.o = t, {}

    def content(self, h):
        o = self.o[h]
        return dict_content(o) if isinstance(o, dict) else proj(o)

    def rec(self, op, err="", **f):
        obs = {h: self.content(h) for h in self.o}
        self.t.ev(op, err=err, obs=obs, **f)

    def do(self, op, fn, **f):
        try:
            fn()
            err = ""
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        self.rec(op, err=err, **f)

    def states(self):
        return [h for h in self.o if not isinstance(self.o[h], dict)]

    # operations -----------------------------------------------------------
    def new(self, h):
        self.o[h] = SimulationState()
        self.rec("new", h=h)

    def mkdict(self, h, d):
        self.o[h] = d
        self.rec("dict", h=h, c=dict_content(copy.deepcopy(d)))

    def load(self, h, h2, how):
        def go():
            src = self.o[h]
            if isinstance(src, dict):
                self.o[h2] = SimulationState(src)
            elif how == 0:
                self.o[h2] = SimulationState.from_dict(json.loads(json.dumps(src.as_dict())))
            elif how == 1:
                self.o[h2] = SimulationState.from_dict(copy.deepcopy(src.as_dict()))
            else:
                self.o[h2] = SimulationState(
                    {SITES: {i: src.get_site_state(i) for i in src.site_ids()},
                     GENERAL: src.get_general_state()})
        self.do("load", go, h=h, h2=h2)

    def copy(self, h, h2):
        def go():
            self.o[h2] = self.o[h].copy()
        self.do("copy", go, h=h, h2=h2)

    def set(self, h, i, u):
        self.do("set", lambda: self.o[h].set_site_state(i, copy.deepcopy(u)),
                h=h, id=cid(i), u=cmap(u))

    def gen(self, h, u):
        self.do("gen", lambda: self.o[h].set_general_state(copy.deepcopy(u)), h=h, u=cmap(u))

    def batch(self, h, form, s, g):
        b = {"map": lambda: s, "full": lambda: {SITES: s, GENERAL: g},
             "fullrev": lambda: {GENERAL: g, SITES: s},
             "sites": lambda: {SITES: s}, "general": lambda: {GENERAL: g}}[form]()
        c = cupd(s if form != "general" else {}, g if form not in ("map", "sites") else {})
        self.do("batch", lambda: self.o[h].batch_update(copy.deepcopy(b)),
                h=h, form=form, s=c["s"], g=c["g"])

    def share(self, hs, ids, u, how):
        """Use one and the same dictionary for several updates, then change it."""
        for h in hs:
            if how == 0:
                for i in ids:
                    self.do("set", lambda i=i: self.o[h].set_site_state(i, u),
                            h=h, id=cid(i), u=cmap(u))
            elif how == 1:
                self.do("gen", lambda: self.o[h].set_general_state(u), h=h, u=cmap(u))
            elif how == 2:
                b = {i: u for i in ids}
                c = cupd(b)
                self.do("batch", lambda: self.o[h].batch_update(b),
                        h=h, form="map", s=c["s"], g=c["g"])
            else:
                b = {SITES: {i: u for i in ids}, GENERAL: u}
                c = cupd(b[SITES], u)
                self.do("batch", lambda: self.o[h].batch_update(b),
                        h=h, form="full", s=c["s"], g=c["g"])
        u["late"] = "aside"
        u["x"] = "aside"
        self.rec("aside")

    def poke(self, h, i, k):
        """Change a nested value of h in place (False if there is none)."""
        o = self.o[h]
        if i is None:
            m = o.get(GENERAL, {}) if isinstance(o, dict) else o.get_general_state()
        else:
            m = o[SITES].get(i) if isinstance(o, dict) else o.get_site_state(i)
        v = (m or {}).get(k)
        if isinstance(v, list):
            v.append("poked")
        elif isinstance(v, dict):
            v["poked"] = len(v)
        else:
            return False
        self.rec("poke", h=h, id=cid(i) if i is not None else "", k=k)
        return True

    def read(self, h):
        o = self.o[h]
        try:
            ids = list(o.site_ids())
            unknown = max([i for i in ids if isinstance(i, int)] + [0]) + 1000
            self.t.ev(
                "read", h=h, ids=[cid(i) for i in ids], size=o.size,
                all=[{ckey(k): cv(v) for k, v in m.items()} for m in o.all_site_states()],
                unknown=o.get_site_state(unknown) is None
                and o.get_site_state(-777) is None,
                eq=[{"h": k, "r": bool(o == self.o[k])} for k in self.states()],
            )
        except Exception as e:  # noqa: BLE001
            self.t.ev("read", h=h, err=type(e).__name__)


def replay(ctx, script, n):
    def go(t):
        w = World(t)
        w.new("a")
        for o in script:
            j = json.loads
            if o["op"] == "set":
                w.set(o["h"], int(o["id"]), {k: j(v) for k, v in dict(o["u"] or {}).items()})
            elif o["op"] == "gen":
                w.gen(o["h"], {k: j(v) for k, v in o["u"].items()})
            elif o["op"] == "batch":
                w.batch(o["h"], o["form"],
                        {int(i): {k: j(v) for k, v in u.items()} for i, u in dict(o["s"] or {}).items()},
                        {k: j(v) for k, v in dict(o["g"] or {}).items()})
            elif o["op"] == "copy":
                w.copy(o["h"], o["h2"])
            elif o["op"] == "load":
                w.load(o["h"], o["h2"], 0)
            elif o["op"] == "poke":
                w.poke(o["h"], int(o["id"]), o["k"])
        for h in w.states():
            w.read(h)
    ctx.case(f"script{n}", go)


def random_history(ctx, n, length, pokes):
    rng = ctx.rng

    def go(t):
        w = World(t)
        ids = rng.sample([0, 1, 2, 3, 5, 10, 11, 17, 100, 255, 4096, 10**6, -1, -12],
                         rng.randrange(2, 6))
        w.new("a")
        hs = ["a", "b", "c", "d"]
        nd = 0
        for _ in range(length):
            h = rng.choice(w.states())
            r = rng.random()
            if r < 0.22:
                w.set(h, rng.choice(ids), rand_updates(rng, pokes))
            elif r < 0.32:
                w.gen(h, rand_updates(rng, pokes))
            elif r < 0.55:
                s = {i: rand_updates(rng, pokes) for i in rng.sample(ids, rng.randrange(len(ids)))}
                w.batch(h, rng.choice(["map", "full", "fullrev", "sites", "general"]), s,
                        rand_updates(rng, pokes))
            elif r < 0.67:
                w.copy(h, rng.choice(hs))
            elif r < 0.73:
                w.load(h, rng.choice(hs), rng.randrange(3))
            elif r < 0.75 and not pokes:
                w.share(rng.sample(w.states(), min(2, len(w.states()))), rng.sample(ids, 2),
                        {rng.choice(KEYS): rand_value(rng) for _ in range(2)}, rng.randrange(4))
            elif r < 0.78:
                k = f"dict{nd}"
                nd += 1
                d = {SITES: {i: {**({"_site_id": i} if rng.random() < 0.6 else {}),
                                 **rand_updates(rng, True)}
                             for i in rng.sample(ids, rng.randrange(0, len(ids) + 1))},
                     GENERAL: rand_updates(rng, True)}
                w.mkdict(k, d)
                w.load(k, rng.choice(hs), 0)
            elif pokes:
                # prefer places that hold a nested value
                spots = []
                for k in w.o:
                    o = w.o[k]
                    sites = o[SITES] if isinstance(o, dict) else {i: o.get_site_state(i) for i in o.site_ids()}
                    g = o[GENERAL] if isinstance(o, dict) else o.get_general_state()
                    for i, mm in [*sites.items(), (None, g)]:
                        spots += [(k, i, q) for q, v in mm.items() if isinstance(v, (list, dict))]
                if spots:
                    w.poke(*rng.choice(spots))
            else:
                w.read(h)
        for h in w.states():
            w.read(h)
    ctx.case(f"random{n}", go)


def large(ctx, n, size):
    rng = ctx.rng

    def go(t):
        w = World(t)
        w.new("a")
        ids = rng.sample(range(3 * size), size)
        w.batch("a", "full", {i: {"x": i % 7, "y": [i]} for i in ids}, {"n": size})
        w.copy("a", "b")
        w.batch("b", "map", {i: {"x": "new"} for i in ids[1::2]}, {})
        w.set("a", ids[0], {"z": None})
        w.load("b", "c", n % 3)
        w.batch("c", "full", {i: {"y": 3} for i in ids[-9:]}, {"m": 2})
        for h in "abc":
            w.read(h)
    ctx.case(f"large{n}", go)


def structs(ctx):
    from pylattica.core import SimulationState as S
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

    for n in (1, 2, 3):
        def go(t, n=n):
            st = SimpleSquare2DStructureBuilder().build(n)
            w = World(t)
            w.o["a"] = S.from_struct(st)
            w.rec("struct", h="a", ids=[cid(i) for i in st.site_ids])
            w.read("a")
            w.copy("a", "b")
            w.set("b", 0, {"x": 1})
            w.read("b")
        ctx.case(f"struct{n}", go)
    for n, size in enumerate(ctx.pick([120, 1030], [40, 120, 300, 700, 2050])):
        large(ctx, n, size)


def s01(ctx):
    scripts = [s for s in ctx.scripts if not any(o["op"] == "poke" for o in s)]
    for n, s in enumerate(scripts):
        replay(ctx, s, n)
    for n in range(ctx.pick(60, 600)):
        random_history(ctx, n, ctx.rng.choice([5, 12, 25, 40]), False)
    structs(ctx)


def s02(ctx):
    scripts = [s for s in ctx.scripts if any(o["op"] in ("copy", "load") for o in s)]
    for n, s in enumerate(scripts):
        replay(ctx, s, n)
    for n in range(ctx.pick(80, 800)):
        random_history(ctx, n, ctx.rng.choice([8, 15, 30]), True)
    large(ctx, 0, 320)
