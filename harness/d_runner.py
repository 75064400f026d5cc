"""The runners: R01 - R07."""
import json
import os
import random
import time

from pylattica.core import (AsynchronousRunner, BasicController, SimulationResult,
                            SimulationState, SynchronousRunner)
from pylattica.core.constants import GENERAL, SITES

from d_history import start_state
from d_state import rand_value
from lib import call, cid, cmap, cv, proj

SHAPES = ["own", "self", "other", "both", "sites", "general", "empty", "none", "two", "new"]
# for rules that answer with the same objects again
AGAIN = ["own", "other", "other", "two", "two", "two", "both", "general", "general", "none"]


class Boom(Exception):
    pass


class Views:
    """The views of one trace, each listed once."""

    def __init__(self, t):
        self.list = t.d.setdefault("views", [])
        self.at = {json.dumps(v, sort_keys=True): i for i, v in enumerate(self.list)}

    def add(self, v):
        k = json.dumps(v, sort_keys=True)
        if k not in self.at:
            self.list.append(v)
            self.at[k] = len(self.list)
        return self.at[k]


def canon(form, u, site):
    if form == "own":
        return cmap(u)
    if form == "sites":
        return {cid(i): cmap(m) for i, m in u.items()}
    if form == "full":
        return {"s": {cid(i): cmap(m) for i, m in u.get(SITES, {}).items()},
                "g": cmap(u.get(GENERAL, {}))}
    return {}


class Logged(BasicController):
    """A deterministic rule which records every application.

    The answer depends on the seed, the site, the step (read from the clock
    kept by one site) and on what the rule sees of the state.  No two answers
    of a step write the same key of the same site.
    """

    def __init__(self, ids, seed, shapes, clock=None, log=None, delay=0.0, follow=None,
                 asks=None, boom=None, news=True, deps=True, memo=False):
        self.ids, self.seed, self.shapes, self.clock = ids, seed, shapes, clock
        self.log, self.delay, self.follow, self.asks = log, delay, follow, asks
        self.boom, self.news, self.deps = boom, news, deps
        self.memo = {} if memo else None     # answers, to be given as the same objects again
        self.lists = {}
        self.events, self.hooks, self.count = [], [], 0
        self.file = None

    def instantiate_result(self, starting_state):
        self.hooks.append("result")
        return super().instantiate_result(starting_state)

    def pre_run(self, initial_state):
        self.hooks.append("pre")

    # the rule ---------------------------------------------------------------
    def answer(self, site, state, shape, r):
        x = r.randrange(100)
        if self.deps:
            x += sum(v for i in state.site_ids()
                     for v in [state.get_site_state(i).get("x")] if isinstance(v, int))
        own = {"x": x % 97}
        if r.random() < 0.3:
            own["z"] = rand_value(r, 1)
        if site == self.clock:
            own["t"] = (state.get_site_state(site).get("t") or 0) + 1
            if shape in ("other", "general", "empty", "none", "new"):
                shape = r.choice(["own", "self", "both", "sites", "two"])
        other = r.choice(self.ids)
        cross = {f"y{site}": r.randrange(5)}
        if shape == "new":
            other = 7000 + abs(site) if self.news else site
            shape = "other"
        if shape == "own":
            return "own", own
        if shape == "self":
            return "sites", {site: own}
        if shape == "other":
            return "sites", {other: cross}
        if shape == "two":
            return "sites", {site: own} if other == site else {site: own, other: cross}
        if shape == "both":
            return "full", {SITES: {site: own}, GENERAL: {f"g{site}": x, f"h{site}": [x]}}
        if shape == "sites":
            return "full", {SITES: {site: own}}
        if shape == "general":
            return "full", {GENERAL: {f"g{site}": x}}
        return (shape, {}) if shape == "empty" else ("none", None)

    def step_of(self, state):
        if self.clock is None:
            return 0
        return (state.get_site_state(self.clock) or {}).get("t") or 0

    def get_state_update(self, site_id, prev_state):
        k = self.step_of(prev_state)
        n = self.count
        self.count += 1
        which = n if self.follow is not None or (self.clock is None and self.log is None) else k
        r = random.Random(f"{self.seed}:{site_id}:{which}")
        if self.delay and r.random() < 0.5:
            time.sleep(r.random() * self.delay)
        if self.boom is not None and self.boom(site_id, n):
            self.put({"op": "raise", "site": cid(site_id), "name": "Boom"})
            raise Boom(site_id)
        view = proj(prev_state)
        shape = self.shapes(site_id, which, r) if callable(self.shapes) else r.choice(self.shapes)
        if self.memo is None or site_id == self.clock:
            form, u = self.answer(site_id, prev_state, shape, r)
            v = canon(form, u, site_id)
        else:
            key = (site_id, r.randrange(3))
            if key not in self.memo:
                form, u = self.answer(site_id, prev_state, shape, r)
                self.memo[key] = form, u, canon(form, u, site_id)
            form, u, v = self.memo[key]
        e = {"op": "call", "site": cid(site_id), "view": view, "form": form, "v": v, "step": k}
        if self.follow is None:
            self.put(e)
            return u
        nxt, was = self.same(self.follow(n, r))
        e["next"] = [cid(i) for i in was]
        self.put(e)
        return u if nxt is None else (u, nxt)

    def get_random_site(self, state):
        got, ret = self.same(self.asks(len(self.events)))
        self.put({"op": "ask", "view": proj(state), "ret": [cid(i) for i in ret]})
        return got

    def same(self, got):
        """What to return for a list of sites, and what is in it."""
        ret = [] if got is None else [got] if isinstance(got, int) else list(got)
        if self.memo is not None and isinstance(got, list):
            got = self.lists.setdefault(tuple(ret), got)
        return got, ret

    def put(self, e):
        if self.log is None:
            self.events.append(e)
        else:
            with open(os.path.join(self.log, f"{os.getpid()}.log"), "a", encoding="utf-8") as f:
                f.write(json.dumps(e) + "\n")

    def drain(self):
        if self.log is None:
            ev, self.events = self.events, []
            return ev
        ev = []
        for n in sorted(os.listdir(self.log)):
            p = os.path.join(self.log, n)
            with open(p, encoding="utf-8") as f:
                ev += [json.loads(line) for line in f]
            os.remove(p)
        return ev


class Recorder:
    """One trace: any number of runs."""

    def __init__(self, t, ctx):
        self.t, self.ctx, self.views = t, ctx, Views(t)
        self.done = []          # results of the finished runs

    def _call(self, e):
        return {"site": e["site"], "view": self.views.add(e["view"]), "form": e["form"],
                "v": e["v"]}

    def run(self, mode, runner, state, c, n, raises=False):
        t = self.t
        c.hooks.clear()
        c.count = 0
        t.ev("start", mode=mode, state=proj(state), n=n)
        base = c.step_of(state)
        res, err = call(runner.run, state, c, n, *([True] if self.ctx.rng.random() < 0.2 else []))
        calls = c.drain()
        extra = 0
        if mode == "async":
            for e in calls:
                if e["op"] == "ask":
                    t.ev("ask", view=self.views.add(e["view"]), ret=e["ret"])
                elif e["op"] == "raise":
                    t.ev("raise", site=e["site"], name=e["name"])
                else:
                    t.ev("call", next=e["next"], **self._call(e))
        elif err:
            for e in calls:
                if e["op"] == "raise":
                    t.ev("raise", site=e["site"], name=e["name"])
                    break
        else:
            steps = [proj(s) for s in self.steps(res)]
            parallel = c.log is not None
            for k in range(len(steps) - 1):
                if parallel and (n > 1 or c.clock is not None):
                    mine = [e for e in calls if e["step"] == base + k]
                    calls = [e for e in calls if e["step"] != base + k]
                elif parallel:
                    mine, calls = calls, []
                else:
                    size = len(steps[k]["s"])
                    mine, calls = calls[:size], calls[size:]
                t.ev("step", calls=[self._call(e) for e in mine], post=steps[k + 1])
            extra = len(calls)
        old = [[proj(s) for s in self.steps(r)] for r in self.done]
        f = {"init": proj(state), "runs": old, "err": err}
        if not err:
            f.update(len=len(res), steps=[proj(s) for s in self.steps(res)],
                     out=proj(res.output), extra=extra, hooks=list(c.hooks))
            self.done.append(res)
        t.ev("end", **f)
        return res

    def touch(self, state):
        """The caller changes the initial state and the outputs of the runs."""
        rng = self.ctx.rng
        for x in [state] + [r.output for r in self.done]:
            if rng.random() < 0.7:
                for i in x.site_ids():
                    if rng.random() < 0.5:
                        x.set_site_state(i, {"x": 5, "touched": 1})
                    for v in (x.get_site_state(i) or {}).values():
                        if isinstance(v, list):
                            v.append("touched")
                x.set_general_state({"touched": 1})
        self.t.ev("touch", runs=[[proj(s) for s in self.steps(r)] for r in self.done])

    @staticmethod
    def steps(res):
        return [res.get_step(k) for k in range(len(res))]


POOL = [0, 1, 2, 3, 4, 5, 7, 10, 11, 23, 100, 4096, -1, -7]


def some_ids(rng, lo, hi):
    return rng.sample(POOL, rng.randrange(lo, hi + 1))


def sync_runner(kind, workers=None):
    return SynchronousRunner() if kind == "serial" else \
        SynchronousRunner(parallel=True, workers=workers)


def sync_ctrl(ctx, ids, kind, shapes=tuple(SHAPES), clock=True, delay=0.0, **k):
    rng = ctx.rng
    return Logged(ids, rng.randrange(10**9), shapes,
                  clock=rng.choice(ids) if clock and ids else None,
                  log=ctx.tmp() if kind == "parallel" else None, delay=delay, **k)


# R01 ------------------------------------------------------------------------
def r01(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(90, 900)):
        def go(t):
            ids = some_ids(rng, 1, 7)
            s = start_state(rng, ids)
            c = Logged(ids, rng.randrange(10**9), SHAPES)
            Recorder(t, ctx).run("serial", SynchronousRunner(), s, c, rng.randrange(0, 6))
        ctx.case(f"serial{n}", go)
    for n in range(ctx.pick(6, 40)):
        def go(t):
            ids = list(range(rng.choice([9, 20, 30, 70, 110, 140])))
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"x": rng.randrange(9)})
            c = Logged(ids, rng.randrange(10**9), ["own", "own", "both", "none"])
            Recorder(t, ctx).run("serial", SynchronousRunner(), s, c, 3 if len(ids) < 50 else 2)
        ctx.case(f"large{n}", go)
    for n in range(ctx.pick(20, 150)):
        def go(t):
            # a rule that answers with the same objects again and again
            ids = some_ids(rng, 2, 4)
            c = Logged(ids, rng.randrange(10**9), AGAIN, deps=False, memo=True)
            Recorder(t, ctx).run("serial", SynchronousRunner(), start_state(rng, ids), c,
                                 rng.randrange(4, 11))
        ctx.case(f"same{n}", go)
    for n in range(ctx.pick(4, 20)):
        def go(t, n=n):
            random_known(ctx, t, "serial", None, [260, 1100, 130, 520][n % 4], rng.choice([1, 2]))
        ctx.case(f"known{n}", go)


# R02 ------------------------------------------------------------------------
class Known(BasicController):
    """A rule on integers the specification computes itself."""

    def __init__(self, rule, nbrs, seed, delay, form):
        self.rule, self.nbrs, self.seed, self.delay, self.form = rule, nbrs, seed, delay, form

    def get_state_update(self, site_id, prev_state):
        x, a, b = (prev_state.get_site_state(i)["v"] for i in
                   (site_id, *self.nbrs[site_id]))
        if self.delay:
            r = random.Random(f"{self.seed}:{site_id}:{x}:{os.getpid()}")
            if r.random() < 0.4:
                time.sleep(r.random() * self.delay)
        R = self.rule
        if R["kind"] == "table":
            v = R["tab"][str(x)][str(a)]
            if v == 2:
                return None
        else:
            v = R["a"] * x + R["b"] * a + R["c"] * b + R["d"]
            if v % 5 == R["skip"]:
                return None
            v %= R["m"]
        u = {"v": v}
        return u if self.form == 0 else {site_id: u} if self.form == 1 else {SITES: {site_id: u}}


class Clash(BasicController):
    """A rule whose answers at different sites write the same values."""

    def __init__(self, ids, seed, delay):
        self.ids, self.seed, self.delay, self.delayed = ids, seed, delay, False

    def get_state_update(self, site_id, prev_state):
        v = prev_state.get_site_state(site_id)["v"]
        r = random.Random(f"{self.seed}:{site_id}:{v}")
        if self.delayed:
            w = random.Random(f"{self.seed}:{site_id}:{v}:{os.getpid()}")
            if w.random() < 0.4:
                time.sleep(w.random() * self.delay)
        other = r.choice(self.ids)
        u = {site_id: {"v": (v + site_id) % 7, "w": site_id}, other: {"w": site_id}}
        return r.choice([u, {SITES: u}, {SITES: u, GENERAL: {"last": site_id}},
                         {GENERAL: {"last": site_id, "v": v}}])


def known_run(ctx, t, kind, workers, rule, nbrs, vals, n, delay):
    s = SimulationState()
    for i, v in vals.items():
        s.set_site_state(i, {"v": v, "tag": f"s{i}"})
    s.set_general_state({"note": "kept"})

    def ints(st):
        return {cid(i): st.get_site_state(i)["v"] for i in st.site_ids()}

    def rest(st):
        return cv([st.get_general_state()] + [[cid(i), st.get_site_state(i).get("tag"),
                  len(st.get_site_state(i))] for i in sorted(st.site_ids())])

    c = Known(rule, nbrs, ctx.rng.randrange(10**6), delay, ctx.rng.randrange(3))
    r0 = rest(s)
    res, err = call(sync_runner(kind, workers).run, s, c, n)
    f = {"n": n, "rule": rule, "err": err, "workers": workers or 0, "kind": kind,
         "nbrs": {cid(i): [cid(j) for j in l] for i, l in nbrs.items()},
         "vals": {cid(i): v for i, v in vals.items()}}
    if not err:
        steps = Recorder.steps(res)
        f.update(steps=[ints(x) for x in steps], out=ints(res.output), init=ints(s),
                 rest0=r0, rest=next((x for x in map(rest, steps + [res.output, s]) if x != r0),
                                     r0))
    t.ev("rule", **f)


def random_known(ctx, t, kind, workers, N, steps, delay=0):
    rng = ctx.rng
    ids = rng.sample(range(0, max(200, 2 * N)), N)
    nbrs = {i: [rng.choice(ids), rng.choice(ids)] for i in ids}
    rule = {"kind": "poly", "a": rng.randrange(4), "b": rng.randrange(1, 4),
            "c": rng.randrange(1, 4), "d": rng.randrange(3), "m": rng.choice([2, 5, 97]),
            "skip": rng.choice([0, 1, 9])}
    known_run(ctx, t, kind, workers, rule, nbrs, {i: rng.randrange(rule["m"]) for i in ids},
              steps, delay)


def r02(ctx):
    rng = ctx.rng
    scripts = list(ctx.scripts)
    rng.shuffle(scripts)
    for n, sc in enumerate(scripts[: ctx.pick(60, 648)]):
        def go(t, sc=sc):
            N = len(sc["init"])
            ids = rng.choice([[0, 1, 2], [5, 2, 9], [100, 3, 7]])[:N]
            nbrs = {ids[i]: [ids[i - 1], ids[(i + 1) % N]] for i in range(N)}
            known_run(ctx, t, "parallel", rng.choice([1, 2, 3, 5]),
                      {"kind": "table", "tab": sc["rule"]}, nbrs,
                      dict(zip(ids, sc["init"])), rng.choice([2, 3, 4]), 0.002)
        ctx.case(f"rule{n}", go)
    for n in range(ctx.pick(60, 700)):
        def go(t, n=n):
            N = rng.choice([1, 2, 3, 5, 8, 13, 24, 40, 65, 150])
            random_known(ctx, t, "serial" if n % 10 == 9 else "parallel",
                         rng.choice([1, 2, 3, 4, 7, 8, 16, N + 3, None]), N,
                         rng.choice([0, 1, 2, 4, 8, 12]), rng.choice([0, 0, 0.001, 0.004]))
        ctx.case(f"poly{n}", go)
    for n in range(ctx.pick(3, 20)):
        ctx.case(f"wide{n}", lambda t, n=n: random_known(
            ctx, t, "parallel", rng.choice([None, 3, 16]), [320, 1200, 700][n % 3], 2))
    for n in range(ctx.pick(25, 250)):
        def go(t, n=n):
            ids = some_ids(rng, 1, 8)
            s = start_state(rng, ids)
            again = {"shapes": AGAIN, "deps": False, "memo": True} if n % 4 == 3 else {}
            c = sync_ctrl(ctx, ids, "parallel", delay=rng.choice([0, 0.003]), **again)
            Recorder(t, ctx).run("parallel", sync_runner("parallel", rng.choice([1, 2, 3, 5, 9])),
                                 s, c, 10 if again else rng.randrange(1, 6))
        ctx.case(f"seen{n}", go)

    for n in range(ctx.pick(14, 140)):
        def go(t):
            # several sites write the same value: also then as in a serial run
            ids = rng.sample(range(400), rng.choice([2, 4, 6, 11, 11, 80, 210]))
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"v": rng.randrange(5)})
            c = Clash(ids, rng.randrange(10**6), rng.choice([0.02, 0.05]))
            k, w = rng.choice([1, 2, 3]), rng.choice([2, 3, 4, len(ids)])
            f = {"workers": w}
            for h, kind in (("a", "serial"), ("b", "parallel")):
                c.delayed = kind == "parallel"
                res, err = call(sync_runner(kind, w).run, s, c, k)
                f["err"] = f.get("err") or err
                if not err:
                    f[h] = [proj(x) for x in Recorder.steps(res) + [res.output]]
            t.ev("same", **f)
        ctx.case(f"clash{n}", go)

    def go(t):
        s = SimulationState()
        s.set_general_state({"a": 1})
        c = Logged([], 1, SHAPES, log=ctx.tmp())
        Recorder(t, ctx).run("parallel", sync_runner("parallel", 2), s, c, 3)
    ctx.case("empty", go)


# R03 ------------------------------------------------------------------------
def async_random(ctx, rng, t, rec=None, shapes=tuple(SHAPES), n=None, ids=None, s=None, boom=None,
                 runner=None, memo=False):
    ids = ids or some_ids(rng, 1, 5)
    s = s or start_state(rng, ids)
    n = rng.choice([1, 2, 5, 10, 20]) if n is None else n
    live = rng.choice([0.15, 0.5, 0.8])
    dry = rng.choice([0.0, 0.1, 0.4])

    def follow(_k, r):
        if r.random() > live:
            return r.choice([None, []])
        return [r.choice(ids) for _ in range(r.choice([1, 1, 2, 3]))]

    def asks(_k):
        if rng.random() < dry:
            return rng.choice([None, []])
        if rng.random() < 0.5:
            return rng.choice(ids)
        return [rng.choice(ids) for _ in range(rng.randrange(1, 4))]

    c = Logged(ids, rng.randrange(10**9), list(shapes), follow=follow, asks=asks, boom=boom,
               memo=memo, deps=not memo)
    return (rec or Recorder(t, ctx)).run("async", runner or AsynchronousRunner(), s, c, n)


def r03(ctx):
    rng = ctx.rng
    scripts = list(ctx.scripts)
    rng.shuffle(scripts)
    for n, sc in enumerate(scripts[: ctx.pick(260, 6000)]):
        def go(t, sc=sc):
            m = rng.choice([{1: 0, 2: 1}, {1: 4, 2: 17}, {1: 9, 2: 0}])
            ids = list(m.values())
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"x": 0})
            asks = [[m[i] for i in o["sites"]] for o in sc["script"] if o["op"] == "ask"]
            calls = [o for o in sc["script"] if o["op"] == "call"]

            def follow(k, _r):
                nx = [m[i] for i in calls[k]["next"]] if k < len(calls) else []
                return nx if nx or rng.random() < 0.5 else None

            def ask(_k):
                h = asks.pop(0) if asks else []
                if len(h) == 1 and rng.random() < 0.5:
                    return h[0]
                return h if h or rng.random() < 0.5 else None

            class Scripted(Logged):
                def answer(self, site, state, shape, r):
                    k = self.count - 1
                    to = calls[k]["target"] if k < len(calls) else 0
                    if to == 0:
                        return "none", None
                    return "sites", {m[to]: {"x": k + 1}}

            c = Scripted(ids, 1, SHAPES, follow=follow, asks=ask)
            Recorder(t, ctx).run("async", AsynchronousRunner(), s, c, sc["n"])
        ctx.case(f"script{n}", go)
    for n in range(ctx.pick(120, 1200)):
        ctx.case(f"random{n}", lambda t, n=n: async_random(ctx, rng, t, memo=n % 5 == 4))
    for n in range(ctx.pick(24, 200)):
        def go(t, n=n):
            # sites the state does not know, or knows nothing about
            ids = some_ids(rng, 2, 6)
            m = rng.sample(ids, rng.randrange(len(ids)))
            s = start_state(rng, m)
            if n % 2:
                d = s.as_dict()["state"]
                d[SITES] = {**{i: {} for i in ids if rng.random() < 0.7}, **d[SITES]}
                s = SimulationState(d)
            # (nothing for a site the state does not know may or may not make it known)
            async_random(ctx, rng, t, ids=ids, s=s, n=rng.choice([6, 15]),
                         shapes=[x for x in SHAPES if x != "empty"])
        ctx.case(f"blank{n}", go)
    for n in range(ctx.pick(8, 40)):
        def go(t, n=n):
            # long queues, of which a part or everything is visited
            ids = some_ids(rng, 3, 6)
            s = SimulationState()
            for i in ids[: rng.choice([2, 9])]:
                s.set_site_state(i, {"x": rng.randrange(5)})
            size = [40, 70, 130, 300, 1100, 2100, 66, 260][n % 8]
            first = [rng.choice(ids) for _ in range(size)]
            more = [rng.choice(ids) for _ in range(rng.choice([30, 150]))]
            asked = []

            def ask(_k):
                asked.append(1)
                if n % 3 == 2:
                    return first[:3] if len(asked) == 1 else None
                return first if len(asked) == 1 else rng.choice([ids[0], None])

            def follow(k, _r):
                return (first if n % 3 == 2 else more) if k == 1 and n % 3 else None

            c = Logged(ids, rng.randrange(10**9), ["own", "none"], follow=follow,
                       asks=ask)
            Recorder(t, ctx).run("async", AsynchronousRunner(), s, c,
                                 size + 5 if size <= 70 else 6)
        ctx.case(f"long{n}", go)


# R04 ------------------------------------------------------------------------
def r04(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(60, 600)):
        def go(t, n=n):
            rec = Recorder(t, ctx)
            ids = some_ids(rng, 1, 5)
            s = start_state(rng, ids)
            kind = ["serial", "async", "parallel", "mixed"][n % 4]
            runner = sync_runner(kind, rng.choice([1, 2, 3])) if kind in ("serial", "parallel") \
                else None
            # now and then rules with steps in which nothing changes
            shapes = rng.choice([SHAPES, SHAPES, ["none"] * 4 + ["own"], ["empty", "none"]])
            ctrl = sync_ctrl(ctx, ids, kind, shapes,
                             clock=kind == "parallel" or rng.random() < 0.4) if runner else None
            again = AsynchronousRunner()
            for _ in range(rng.choice([2, 3])):
                if runner and rng.random() < 0.75:
                    k = rng.randrange(0, 5)
                    rec.run(kind, runner, s, ctrl, k)
                    if rng.random() < 0.3:
                        out = rec.done[-1].output
                        s2 = out
                        rec.run(kind, runner, s2, ctrl, 2)
                elif kind == "mixed" and rng.random() < 0.5:
                    c = sync_ctrl(ctx, ids, "serial")
                    rec.run("serial", SynchronousRunner(), s, c, rng.randrange(0, 4))
                else:
                    async_random(ctx, rng, t, rec, ids=ids, s=s, n=rng.choice([0, 1, 4, 8]),
                                 runner=again if rng.random() < 0.7 else None)
                if rng.random() < 0.5:
                    rec.touch(s)
        ctx.case(f"again{n}", go)
    for n in range(ctx.pick(18, 150)):
        def go(t, n=n):
            rec = Recorder(t, ctx)
            ids = some_ids(rng, 2, 5)
            s = start_state(rng, ids)
            kind = ["serial", "parallel", "async"][n % 3]
            if kind == "async":
                at = rng.randrange(0, 4)
                async_random(ctx, rng, t, rec, ids=ids, s=s, n=9, boom=lambda i, k: k == at)
            else:
                bad = rng.choice(ids)
                c = sync_ctrl(ctx, ids, kind, boom=lambda i, k: i == bad)
                r = sync_runner(kind, 2)
                rec.run(kind, r, s, c, 3)
                c.boom = None
                rec.run(kind, r, s, c, 2)
            rec.run("serial", SynchronousRunner(), s, sync_ctrl(ctx, ids, "serial"), 1)
        ctx.case(f"error{n}", go)


# R05 ------------------------------------------------------------------------
class Shaped(Logged):
    """One step in which every site answers in a given shape."""

    def __init__(self, of, *a, **k):
        super().__init__(*a, **k)
        self.of = of

    def answer(self, site, state, shape, r):
        shape = self.of[site]
        nxt = self.ids[(self.ids.index(site) + 1) % len(self.ids)]
        me, ot = {"x": site}, {f"y{site}": site}
        return {
            "own": lambda: ("own", me), "self": lambda: ("sites", {site: me}),
            "other": lambda: ("sites", {nxt: ot}),
            "both": lambda: ("full", {SITES: {site: me}, GENERAL: {f"g{site}": site}}),
            "sites": lambda: ("full", {SITES: {site: me}}),
            "general": lambda: ("full", {GENERAL: {f"g{site}": site}}),
            "empty": lambda: ("empty", {}), "none": lambda: ("none", None),
            "two": lambda: ("sites", {site: me, nxt: ot}),
            "new": lambda: ("full", {SITES: {900 + site: me}, GENERAL: {}}),
        }[shape]()


def r05(ctx):
    rng = ctx.rng
    scripts = list(ctx.scripts)
    rng.shuffle(scripts)
    for n, sc in enumerate(scripts[: ctx.pick(100, 1000)]):
        def go(t, sc=sc, n=n):
            N = len(sc["shape"])
            ids = rng.sample([0, 1, 2, 3, 6, 50], N)
            of = {ids[int(i) - 1]: sh for i, sh in sc["shape"].items()}
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"x": -1, "k": "keep"})
            s.set_general_state({"c": 0})
            kinds = ["serial", "async"] + (["parallel"] if n % ctx.pick(2, 1) == 0 else [])
            rec = Recorder(t, ctx)
            for kind in kinds:
                if kind == "async":
                    left = list(ids)
                    c = Shaped(of, ids, 1, SHAPES, follow=lambda k, r: None,
                               asks=lambda k: list(left))
                    rec.run(kind, AsynchronousRunner(), s, c, N)
                else:
                    c = Shaped(of, ids, 1, SHAPES, log=ctx.tmp() if kind == "parallel" else None)
                    rec.run(kind, sync_runner(kind, rng.choice([1, 2, 4])), s, c, 1)
        ctx.case(f"forms{n}", go)
    quiet = ["none", "empty"]
    for n in range(ctx.pick(70, 700)):
        def go(t, n=n):
            ids = some_ids(rng, 1, 5)
            s = start_state(rng, ids)
            kind = ["serial", "async", "parallel", "serial", "async"][n % 5]
            shapes = [SHAPES, quiet, quiet + ["general"], ["own", "none"]][n % 4]
            rec = Recorder(t, ctx)
            if kind == "async":
                async_random(ctx, rng, t, rec, shapes=shapes, ids=ids, s=s, memo=n % 3 == 0)
            elif kind == "parallel" and shapes is quiet:
                c = Logged(ids, 1, shapes, log=ctx.tmp())
                rec.run(kind, sync_runner(kind, 2), s, c, 1)
            elif n % 3 == 0 and kind in ("serial", "parallel"):
                # the same objects again and again
                c = sync_ctrl(ctx, ids, kind, AGAIN,
                              clock=kind == "parallel", deps=False, memo=True)
                rec.run(kind, sync_runner(kind, 2), s, c, 8)
            elif kind == "parallel":
                c = sync_ctrl(ctx, ids, kind, shapes)
                rec.run(kind, sync_runner(kind, 2), s, c, 3)
            else:
                c = Logged(ids, rng.randrange(10**9), list(shapes))
                rec.run(kind, SynchronousRunner(), s, c, rng.randrange(1, 5))
        ctx.case(f"mixed{n}", go)


# R06 ------------------------------------------------------------------------
class Default(BasicController):
    """Leaves the choice of sites to the library."""

    def __init__(self, r):
        self.r, self.sites = r, []

    def get_state_update(self, site_id, prev_state):
        self.sites.append(site_id)
        return {"seen": self.r.randrange(9)}


def r06(ctx):
    rng = ctx.rng

    def listed(got):
        return [cid(i) for i in (got if isinstance(got, (list, tuple)) else [got])]

    for n in range(ctx.pick(60, 400)):
        def go(t, n=n):
            ids = [some_ids(rng, 1, 8), [rng.randrange(0, 3)], [7], list(range(rng.randrange(1, 9))),
                   [10**6, 10**6 + 5], [1, 2, 3]][n % 6]
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"x": 1})
            if rng.random() < 0.5:
                s.set_general_state({"g": 1})
            names = [cid(i) for i in ids]
            c = Default(rng)
            seen = set()
            for k in range(60 * len(ids)):
                got, err = call(c.get_random_site, s)
                got = [] if err else listed(got)
                if k < 6 or not set(got) <= set(names) or err:
                    t.ev("choice", ids=names, got=got, err=err)
                seen |= set(got)
            t.ev("cover", ids=names, got=sorted(seen))
            for k in rng.sample([1, 3, 12, 40], 2):
                c = Default(rng)
                res, err = call(AsynchronousRunner().run, s, c, k)
                f = {"ids": names, "n": k, "err": err, "sites": [cid(i) for i in c.sites]}
                if not err:
                    f.update(len=len(res),
                             stepids=[[cid(i) for i in x.site_ids()] for x in Recorder.steps(res)])
                t.ev("visits", **f)
        ctx.case(f"default{n}", go)
    for n in range(ctx.pick(40, 300)):
        def go(t):
            # ask and call as in R03, with the library's choice
            ids = some_ids(rng, 1, 6)
            s = start_state(rng, ids)

            class Spied(Logged):
                def get_random_site(self, state):
                    got = BasicController.get_random_site(self, state)
                    self.put({"op": "ask", "view": proj(state), "ret": listed(got)})
                    return got
            c = Spied(ids, rng.randrange(10**9), ["own", "both", "general", "none"],
                      follow=lambda k, r: None)
            Recorder(t, ctx).run("async", AsynchronousRunner(), s, c, rng.choice([1, 4, 15]))
        ctx.case(f"run{n}", go)


# R07 ------------------------------------------------------------------------
class Chained(Known):
    """A known rule; asynchronous runs take the sites in an order kept in the state."""

    def __init__(self, order, *a):
        super().__init__(*a)
        self.order, self.is_async = order, False

    def get_random_site(self, state):
        i = self.order[state.get_general_state()["t"] % len(self.order)]
        return i if self.form else [i]

    def get_state_update(self, site_id, prev_state):
        u = super().get_state_update(site_id, prev_state)
        if not self.is_async:
            return u
        v = (u.get(SITES, u).get(site_id) or u) if u else None
        return {SITES: {site_id: v} if v else {},
                GENERAL: {"t": prev_state.get_general_state()["t"] + 1}}


def r07(ctx):
    from pylattica.core import Simulation
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
    rng = ctx.rng
    grid1 = SimpleSquare2DStructureBuilder().build(1)

    def stored(state):
        """The state after having been stored and loaded again."""
        k = rng.randrange(4)
        if k == 0:
            return state.copy()
        if k == 1:
            return SimulationState.from_dict(json.loads(json.dumps(state.as_dict())))
        f = os.path.join(ctx.tmp(), "x.json")
        if k == 2:
            Simulation(state, grid1).to_file(f)
            return Simulation.from_file(f).state
        SimulationResult(state).to_file(f)
        return SimulationResult.from_file(f).first_step

    def reloaded(res):
        k = rng.randrange(3)
        if k == 0:
            return SimulationResult.from_dict(json.loads(json.dumps(res.as_dict())))
        if k == 1:
            return SimulationResult.from_dict(res.as_dict())
        f = os.path.join(ctx.tmp(), "r.json")
        res.to_file(f)
        return SimulationResult.from_file(f)

    def shown(st):
        return {"c": {cid(i): st.get_site_state(i)["v"] for i in st.site_ids()},
                "t": st.get_general_state()["t"]}

    def rest(st):
        g = dict(st.get_general_state())
        g.pop("t")
        return cv([g] + [[cid(i), {k: v for k, v in st.get_site_state(i).items() if k != "v"}]
                         for i in sorted(st.site_ids())])

    for n in range(ctx.pick(90, 900)):
        def chain(t, n, runners):
            N = rng.choice([1, 2, 3, 5, 8, 13])
            ids = rng.sample(range(0, 200), N)
            nbrs = {i: [rng.choice(ids), rng.choice(ids)] for i in ids}
            rule = {"kind": "poly", "a": rng.randrange(4), "b": rng.randrange(1, 4),
                    "c": rng.randrange(1, 4), "d": rng.randrange(3), "m": rng.choice([2, 5, 97]),
                    "skip": rng.choice([0, 1, 9])}
            s = SimulationState()
            for i in ids:
                s.set_site_state(i, {"v": rng.randrange(rule["m"]), "tag": f"s{i}"})
            t0 = rng.randrange(4)
            s.set_general_state({"t": t0, "note": ["kept"]})
            order = [rng.choice(ids) for _ in range(rng.choice([1, 3, 7]))]
            t.ev("chain", rule=rule, nbrs={cid(i): [cid(j) for j in l] for i, l in nbrs.items()},
                 order=[cid(i) for i in order], rest=rest(s), t=t0, vals=shown(s)["c"])
            c = None
            kinds = rng.choice([["serial"], ["serial", "parallel"], ["async"],
                                ["serial", "parallel", "async"]])
            cur, at, run, parts, points = s, 0, 0, 0, []
            for _ in range(rng.choice([2, 3, 5])):
                kind = rng.choice(kinds)
                if c is None or rng.random() < 0.4:
                    c = Chained(order, rule, nbrs, 1, 0, rng.randrange(3))
                c.is_async = kind == "async"
                k = rng.choice([0, 1, 2, 5]) if rng.random() < 0.9 else 30
                if n % 30 == 29:
                    k = 120
                if points and rng.random() < 0.3:       # once more from an earlier point
                    cur, at, run = rng.choice([points[-1], rng.choice(points)])
                points.append((cur, at, run))
                start = stored(cur) if rng.random() < 0.4 else cur
                res, err = call(runners[kind].run, start, c, k)
                f = {}
                if not err:
                    steps = Recorder.steps(res)
                    r0 = rest(s)
                    f = {"steps": [shown(x) for x in steps], "out": shown(res.output),
                         "rest": next((x for x in map(rest, steps + [res.output]) if x != r0), r0)}
                t.ev("part", kind=kind, n=k, at=at, run=run, err=err, **f)
                if err:
                    return
                parts += 1
                how = rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
                at, run = k, parts
                if how == 0:
                    cur = res.output
                elif how == 1:
                    cur = res.last_step
                elif how == 2:
                    cur = reloaded(res).last_step
                else:                       # go on from any of the steps
                    at = rng.randrange(k + 1)
                    if how == 3:
                        cur = reloaded(res).get_step(at)
                    elif how == 4 and k < 40:
                        cur = list(res.steps())[at]
                    else:
                        if rng.random() < 0.5:
                            res.load_steps(rng.choice([1, 2, 3]))
                        cur = res.get_step(at)

        def go(t, n=n):
            runners = {"serial": SynchronousRunner(), "async": AsynchronousRunner(),
                       "parallel": SynchronousRunner(parallel=True, workers=rng.choice([1, 2, 3]))}
            # now and then the same runners go on to run something else
            for _ in range(rng.choice([1, 1, 2]) if n % 30 != 29 else 1):
                chain(t, n, runners)
        ctx.case(f"chain{n}", go)
