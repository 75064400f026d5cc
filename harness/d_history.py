"""SimulationResult: H01, H02, H03."""
import copy
import json
import os

from pylattica.core import (AsynchronousRunner, BasicController, SimulationResult,
                            SimulationState, SynchronousRunner)
from pylattica.core.constants import GENERAL, SITES

from d_state import rand_updates, rand_value
from lib import cupd, proj


class Hist:
    def __init__(self, t, ctx, start, result=None):
        self.t, self.ctx = t, ctx
        t["start"] = proj(start)
        self.res = result if result is not None else SimulationResult(start)
        self.held = {}
        self.count = 0

    def rec(self, op, **f):
        try:
            obs = {h: proj(s) for h, s in self.held.items()}
            n = len(self.res)
            self.t.ev(op, obs=obs, n=n, **f)
        except Exception as e:  # noqa: BLE001
            self.t.ev(op, err=type(e).__name__)

    def hold(self, s):
        h = f"h{self.count}"
        self.count += 1
        self.held[h] = s
        return h

    def trim(self, keep=6):
        while len(self.held) > keep:
            self.held.pop(next(iter(self.held)))

    def adopt(self):
        """Take the steps of a result made elsewhere as the history."""
        steps = [proj(self.res.get_step(k)) for k in range(len(self.res))]
        self.rec("adopt", steps=steps)

    def add(self, form, s, g):
        b = {"map": lambda: s, "full": lambda: {SITES: s, GENERAL: g},
             "sites": lambda: {SITES: s}, "general": lambda: {GENERAL: g}}[form]()
        u = cupd(s if form != "general" else {}, g if form in ("full", "general") else {})
        self.res.add_step(copy.deepcopy(b))
        self.rec("add", u=u, form=form)

    def adds(self, batches):
        """Many steps at once."""
        us = []
        for form, s, g in batches:
            self.res.add_step({SITES: s, GENERAL: g} if form == "full" else s)
            us.append(cupd(s, g if form == "full" else {}))
        self.rec("adds", us=us)

    def load(self, i):
        if i is None:
            self.res.load_steps()
        else:
            self.res.load_steps(i)
        self.rec("load", interval=i or 1)

    def get(self, k):
        h = self.hold(self.res.get_step(k))
        self.rec("get", h=h, k=k)

    def beyond(self, k):
        """Ask for a step that was not recorded."""
        try:
            self.res.get_step(k)
            r = "answered"
        except Exception as e:  # noqa: BLE001
            r = type(e).__name__
        self.rec("beyond", k=k, r=r)

    def first(self):
        self.rec("first", h=self.hold(self.res.first_step))

    def last(self):
        self.rec("last", h=self.hold(self.res.last_step))

    def iterate(self):
        self.held = dict(list(self.held.items())[-3:])
        hs = [self.hold(s) for s in list(self.res.steps())]
        self.rec("iter", hs=hs)
        self.trim(8)

    def poke(self, h, how, rng):
        s = self.held[h]
        ids = list(s.site_ids())
        if how == 0 or not ids:
            s.set_general_state({"poked": 1})
        elif how == 1:
            s.set_site_state(rng.choice(ids), {"poked": 1})
        elif how == 2:
            s.batch_update({ids[0]: {"x": "poked"}, 4242: {"new": 1}})
        elif how == 3:
            s.get_site_state(rng.choice(ids))["poked"] = 1
        else:
            for i in ids:
                for v in s.get_site_state(i).values():
                    if isinstance(v, list):
                        v.append("poked")
                        break
            for v in s.get_general_state().values():
                if isinstance(v, list):
                    v.append("poked")
        self.rec("poke", h=h, how=how)

    def iterate_poking(self, rng):
        """Change each step of an iteration while the iteration goes on."""
        self.held = dict(list(self.held.items())[-2:])
        k = 0
        for s in self.res.steps():
            h = self.hold(s)
            self.rec("next", h=h, k=k)
            if rng.random() < 0.7:
                self.poke(h, rng.randrange(5), rng)
            k += 1
        self.rec("stop", k=k)
        self.trim()

    def reload(self, how):
        if how == 0:
            self.res = SimulationResult.from_dict(self.res.as_dict())
        elif how == 1:
            self.res = SimulationResult.from_dict(json.loads(json.dumps(self.res.as_dict())))
        else:
            d = self.ctx.tmp()
            os.chdir(d)
            if how == 2:
                f = os.path.join(d, "res.json")
                self.res.to_file(f)
            elif how == 3:
                f = self.res.to_file()
            else:
                f = os.path.join(d, "res.json.gz")
                self.res.to_file(f)
            self.res = SimulationResult.from_file(f)
        self.rec("reload", how=how)


def start_state(rng, ids):
    s = SimulationState()
    for i in ids:
        s.set_site_state(i, rand_updates(rng, True))
    if rng.random() < 0.6:
        s.set_general_state(rand_updates(rng, True))
    return s


def rand_add(h, rng, ids):
    form = rng.choice(["map", "full", "full", "sites", "general"])
    s = {i: rand_updates(rng, True) for i in rng.sample(ids, rng.randrange(len(ids) + 1))}
    h.add(form, s, {"clock": rng.randrange(9), **rand_updates(rng, True)})


def replay(ctx, n, script, reload_how):
    def go(t):
        s = SimulationState()
        s.set_site_state(0, {"x": 0})
        h = Hist(t, ctx, s)
        for o in script:
            if o["op"] == "add":
                s_ = {int(i): {k: [int(v)] for k, v in u.items()} for i, u in o["u"]["s"].items()}
                g_ = {k: int(v) for k, v in dict(o["u"]["g"] or {}).items()}
                h.add("full" if g_ else "map", s_, g_)
            elif o["op"] == "load":
                h.load(o["interval"])
            elif o["op"] == "get":
                h.get(o["k"])
            elif o["op"] == "poke":
                h.poke(list(h.held)[-1], (n % 4) + (0 if n % 8 < 4 else 1), ctx.rng)
            else:
                h.reload(reload_how(n))
        h.iterate()
        h.last()
    ctx.case(f"script{n}", go)


def random_history(ctx, n, length, weights, reload_hows=(0, 1, 2)):
    rng = ctx.rng

    def go(t):
        ids = rng.sample([0, 1, 2, 3, 5, 10, 17, 100, 4096, -1, -30], rng.randrange(1, 5))
        h = Hist(t, ctx, start_state(rng, ids[: rng.randrange(len(ids) + 1)]))
        for _ in range(length):
            o = rng.choices(list(weights), list(weights.values()))[0]
            if o == "add":
                rand_add(h, rng, ids)
            elif o == "load":
                h.load(rng.choice([None, 1, 2, 3, 4, 7, 50]))
            elif o == "get":
                h.get(rng.randrange(len(h.res)))
            elif o == "beyond":
                h.beyond(len(h.res) + rng.choice([0, 0, 1, 2, 50]))
            elif o in ("first", "last"):
                getattr(h, o)()
            elif o == "iter":
                h.iterate()
            elif o == "iterpoke":
                h.iterate_poking(rng)
            elif o == "poke" and h.held:
                h.poke(rng.choice(list(h.held)), rng.randrange(5), rng)
            elif o == "reload":
                h.reload(rng.choice(reload_hows))
            h.trim()
        h.iterate()
        h.first()
        h.last()
        for k in rng.sample(range(len(h.res)), min(4, len(h.res))):
            h.get(k)
    ctx.case(f"random{n}", go)


def long_history(ctx, n, length, reload_hows=()):
    """Many steps, few reads."""
    rng = ctx.rng

    def go(t):
        ids = rng.sample(range(40), 12)
        h = Hist(t, ctx, start_state(rng, ids[:4]))
        marks = sorted(rng.sample(range(length), 6))
        for k in range(length):
            h.add(rng.choice(["map", "full"]), {i: {"x": k + 2, **({"y": [k]} if k % 3 == 0 else {})}
                                                for i in rng.sample(ids, 2)}, {"clock": k})
            if k in marks:
                h.load(rng.choice([None, 1, 10, 50, 64, 100]))
                h.get(rng.randrange(len(h.res)))
                h.trim(3)
                if reload_hows:
                    h.reload(rng.choice(reload_hows))
        h.load(rng.choice([10, 100]))
        for k in [9, 10, 11, 49, 50, 51, 63, 64, 99, 100, 101, 127, 128, 200, 255, 256, length - 1]:
            if k < len(h.res):
                h.get(k)
                h.trim(3)
        h.last()
        h.beyond(len(h.res))
        h.held = {}
        hs = [h.hold(s) for s in list(h.res.steps())]
        keep = {x: h.held[x] for x in hs[:2] + hs[-3:] + rng.sample(hs, 5)}
        h.held = keep
        h.rec("pick", count=len(hs), at={x: hs.index(x) for x in keep})
    ctx.case(f"long{n}", go)


def huge_history(ctx, n, length, reload_hows=()):
    """More steps than a simulation of a few sites usually has."""
    rng = ctx.rng

    def go(t):
        h = Hist(t, ctx, start_state(rng, []))
        for k in range(0, length, 150):
            h.adds([(rng.choice(["map", "full"]), {rng.randrange(3): {"x": j}}, {"c": j})
                    for j in range(k, min(k + 150, length))])
        if reload_hows:
            h.reload(rng.choice(reload_hows))
        if rng.random() < 0.5:
            h.load(rng.choice([100, 1000]))
        for k in sorted({0, 1, 255, 256, 500, 999, 1000, 1001, 1023, 1024, 2000, length // 2,
                         length - 1, length}):
            if k < len(h.res):
                h.get(k)
                h.trim(2)
        h.last()
        h.first()
        h.held = {}
        hs = [h.hold(s) for s in list(h.res.steps())]
        keep = {x: h.held[x] for x in hs[:2] + hs[-3:] + rng.sample(hs, 5)}
        h.held = keep
        h.rec("pick", count=len(hs), at={x: hs.index(x) for x in keep})
    ctx.case(f"huge{n}", go)


def h01(ctx):
    keep = [s for s in ctx.scripts if not any(o["op"] in ("poke", "reload") for o in s)
            and any(o["op"] == "add" for o in s)]
    for n, s in enumerate(keep):
        replay(ctx, n, s, None)
    for n, size in enumerate(ctx.pick([110, 160, 270], [110, 160, 270, 400, 600])):
        long_history(ctx, n, size)
    for n, size in enumerate(ctx.pick([1060, 2210], [1060, 2210, 4500])):
        huge_history(ctx, n, size)
    w = {"add": 6, "load": 2, "get": 3, "first": 1, "last": 2, "iter": 1, "beyond": 1}
    for n in range(ctx.pick(70, 700)):
        random_history(ctx, n, ctx.rng.choice([6, 15, 30]), w)


def h02(ctx):
    keep = [s for s in ctx.scripts if any(o["op"] == "poke" for o in s)
            and not any(o["op"] == "reload" for o in s)]
    for n, s in enumerate(keep):
        replay(ctx, n, s, None)
    w = {"add": 4, "load": 3, "get": 4, "first": 2, "last": 2, "iter": 1, "iterpoke": 1, "poke": 7}
    for n in range(ctx.pick(80, 800)):
        random_history(ctx, n, ctx.rng.choice([8, 20, 35]), w)


class Mixed(BasicController):
    """A rule that answers in all forms."""

    def __init__(self, rng, ids, follow):
        self.rng, self.ids, self.follow = rng, ids, follow

    def get_random_site(self, _state):
        return self.rng.choice(self.ids)

    def get_state_update(self, site_id, prev_state):
        r = self.rng.randrange(6)
        v = [rand_value(self.rng, 1)]
        u = [
            lambda: {"x": v}, lambda: {site_id: {"y": v}},
            lambda: {SITES: {site_id: {"x": v, "z": 1}}, GENERAL: {f"c{site_id}": v}},
            lambda: {GENERAL: {f"c{site_id}": v}}, lambda: {}, lambda: None,
        ][r]()
        return (u, [self.rng.choice(self.ids)]) if self.follow else u


def h03(ctx):
    rng = ctx.rng
    keep = [s for s in ctx.scripts if any(o["op"] == "reload" for o in s)
            and any(o["op"] == "add" for o in s)]
    for n, s in enumerate(keep[:: ctx.pick(3, 1)]):
        replay(ctx, n, s, lambda k: k % 5)
    w = {"add": 7, "load": 1, "get": 2, "last": 1, "iter": 1, "reload": 3}
    for n in range(ctx.pick(50, 500)):
        random_history(ctx, n, rng.choice([6, 15, 30]), w, (0, 1, 2, 3, 4))
    for n, size in enumerate(ctx.pick([105, 130], [105, 130, 300])):
        long_history(ctx, n, size, (0, 1, 2, 4))
    for n, size in enumerate(ctx.pick([1130], [1130, 2600])):
        huge_history(ctx, n, size, (0, 1, 2, 4))
    for n in range(ctx.pick(2, 6)):
        def go(t, n=n):
            # very many sites
            size = [1100, 330][n % 2]
            s = SimulationState()
            for i in rng.sample(range(size * 2), size):
                s.set_site_state(i, {"x": i % 7})
            h = Hist(t, ctx, s)
            h.add("map", {i: {"x": 1} for i in list(s.site_ids())[::3]}, {})
            h.add("full", {i: {"y": "s"} for i in list(s.site_ids())[-2:]}, {"g": 1})
            h.reload(rng.choice([0, 1, 2, 4]))
            for k in (1, 2):
                h.get(k)
                h.trim(1)
        ctx.case(f"wide{n}", go)
    for n in range(ctx.pick(15, 120)):
        kind = ["serial", "async", "parallel"][n % 3]

        def go(t, kind=kind):
            ids = rng.sample([0, 1, 2, 3, 5, 10, 17, 100, 4096, -1, -30], rng.randrange(1, 7))
            s = start_state(rng, ids)
            c = Mixed(rng, ids, kind == "async")
            r = {"serial": SynchronousRunner(), "async": AsynchronousRunner(),
                 "parallel": SynchronousRunner(parallel=True, workers=2)}[kind]
            steps = rng.randrange(1, 6)
            h = Hist(t, ctx, s, r.run(s, c, steps))
            h.adopt()
            h.reload(rng.randrange(5))
            h.iterate()
            rand_add(h, rng, ids)
            h.load(2)
            h.reload(rng.randrange(5))
            for k in range(len(h.res)):
                h.get(k)
                h.trim()
            h.last()
            h.iterate()
        ctx.case(f"run-{kind}{n}", go)
