"""Analyzers: A01, A02."""
from fractions import Fraction

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from pylattica.core import (Lattice, PeriodicStructure, SimulationResult, SimulationState,
                            StateAnalyzer)
from pylattica.core.constants import GENERAL, SITE_ID, SITES
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

from lib import call, cid, cmap, cv, proj

VALUES = [None, "a", "b", "", 0, 1, 2, 17, [1, 2], {"p": 1}]
KEYS = ["x", "y", OCC]


def frac(x):
    f = Fraction(float(x)).limit_denominator(3000)
    return [f.numerator, f.denominator] if abs(float(x) - f) < 1e-9 else [-999983, 1]


def criterion(q):
    """The function the descriptor [k, in, absent] stands for."""
    def meets(m):
        if q["k"] in m:
            return cv(m[q["k"]]) in q["in"]
        return q["absent"]
    return meets


def fresh(rng, ids, s):
    for i in rng.sample(ids, len(ids)):
        for k in KEYS:
            if rng.random() < 0.7:
                s.set_site_state(i, {k: rng.choice(VALUES[: rng.choice([3, 10])])})
        if i not in s.site_ids():
            s.set_site_state(i, {})
    if rng.random() < 0.3:
        s.set_general_state({"x": "a"})
    if rng.random() < 0.2:
        s = SimulationState.from_dict(s.as_dict())
    if rng.random() < 0.25:
        s = anonymous(s, lambda i: rng.random() < 0.3)
    return s


def a01(ctx):
    rng = ctx.rng
    for n in range(ctx.pick(150, 1500)):
        def go(t, n=n):
            has = rng.random() < 0.6
            m = rng.randrange(0, 9) if n % 25 else rng.choice([60, 130])
            struct, ids = None, []
            t["has"] = has
            A = None
            # what the classes are really called
            names = {"A": "A", "B": "B", "C": rng.choice(["C", "C", "", 0, "a"])}
            real = {v: k for k, v in names.items()}
            for again in range(rng.choice([1, 2, 3])):
                # the same analyzer, for another state
                if has:
                    struct = struct or PeriodicStructure(Lattice([[200, 0], [0, 9]]))
                    for i in range(m if not again else rng.choice([0, 0, 1, 3])):
                        struct.add_site(names[rng.choice("ABC")], (len(struct.site_ids), rng.randrange(9)))
                    ids = list(struct.site_ids)
                    s = SimulationState.from_struct(struct)
                    if rng.random() < 0.4:
                        ids = ids + [1000, 401]       # the state knows more sites
                else:
                    ids = rng.sample([0, 1, 2, 5, 7, 11, 12, 40, 99] if m < 9 else range(300), m)
                    s = SimulationState()
                s = fresh(rng, ids, s)
                A = A or (StateAnalyzer(struct) if has else rng.choice(
                    [lambda: StateAnalyzer(), lambda: StateAnalyzer(None)])())
                if rng.random() < 0.3:
                    A = DiscreteStepAnalyzer(struct) if has else DiscreteStepAnalyzer()
                before = proj(s)
                t.ev("state", m=before["s"], struct=[{"id": cid(i), "cls": real.get(struct.site_class(i))}
                                                     for i in struct.site_ids] if has else [])
                queries(rng, t, A, s, has, ids, names)
                if proj(s) != before:
                    t.ev("count", err="analysis changed the state")
        ctx.case(f"query{n}", go)


def queries(rng, t, A, s, has, ids, names):
    def f(got, err):
        return {"err": err, **({} if err else {"got": got})}

    for _ in range(rng.choice([2, 5])):
        cls = rng.choice(["", "", "A", "B", "C", "none"]) if has else ""
        kw = {"site_class": names.get(cls, cls)} if cls else {}
        if rng.random() < 0.5:
            qs = [{"k": rng.choice(KEYS + ["z"]), "absent": rng.random() < 0.2,
                   "in": [cv(v) for v in rng.sample(VALUES, rng.randrange(1, 8))]}
                  for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
            h = {"cls": cls, "crits": qs, "pairs": {}}
            fns = [criterion(q) for q in qs]
            if fns or rng.random() < 0.5:
                kw["state_criteria"] = fns
            got, err = call(A.get_sites, s, **kw)
            t.ev("sites", **h, **f(err or [cid(i) for i in got], err))
            if not err and isinstance(got, list):
                got.append(0)          # the caller uses the list for something else
            got, err = call(A.get_site_count, s, **kw)
            t.ev("count", **h, **f(got, err))
        else:
            pairs = {k: rng.choice(VALUES[: rng.choice([3, 10])]) for k in
                     rng.sample(KEYS + ["z"], min(len(KEYS), rng.choice([0, 1, 1, 2, 3, 4])))}
            if rng.random() < 0.1 and ids:
                pairs["_site_id"] = rng.choice(ids)
            h = {"cls": cls, "crits": [], "pairs": cmap(pairs)}
            got, err = call(A.get_sites_where_equal, s, pairs, **kw)
            t.ev("sites", **h, **f(err or [cid(i) for i in got], err))
            if not err and isinstance(got, list):
                got.append(0)
            got, err = call(A.get_site_count_where_equal, s, pairs, **kw)
            t.ev("count", **h, **f(got, err))


PH = ["A", "B", "VACANT", "D", "a", ""]
CROWD = PH + ["P%d" % k for k in range(28)]


def fresh_state(rng, ids, phases):
    s = SimulationState()
    c = {}
    for i in rng.sample(ids, len(ids)):
        c[i] = rng.choice(phases)
        s.set_site_state(i, {OCC: c[i], **({"x": rng.choice(PH)} if rng.random() < 0.3 else {})})
    return (anonymous(s) if rng.random() < 0.2 else s), c


def anonymous(s, keep=lambda i: False):
    """The same state, from a dictionary in which sites do not carry their IDs."""
    return SimulationState({
        SITES: {i: {k: v for k, v in s.get_site_state(i).items() if k != SITE_ID or keep(i)}
                for i in s.site_ids()},
        GENERAL: s.get_general_state()})


def a02(ctx):
    rng = ctx.rng

    def one(t, A, f, size, PH=PH):
        ids = rng.sample(range(200), size)
        s, c = fresh_state(rng, ids, rng.sample(PH, rng.choice([1, 2, 4, len(PH)])))
        t.ev("state", m={cid(i): {OCC: c[i]} for i in ids}, struct=[])
        t.ev("present", **f(*call(A.phases_present, s), list))
        t.ev("phasecount", **f(*call(A.phase_count, s)))
        for p in PH:
            t.ev("cells", p=p, **f(*call(A.cell_count, s, p)))
            t.ev("fraction", p=p, **f(*call(A.cell_fraction, s, p), frac))
            q = c[rng.choice(ids)]
            t.ev("ratio", p=p, q=q, **f(*call(A.cell_ratio, s, p, q), frac))

    for n in range(ctx.pick(80, 800)):
        def go(t, n=n):
            t["has"] = False

            def f(got, err, g=lambda x: x):
                return {"err": err, **({} if err else {"got": g(got)})}

            A = DiscreteStepAnalyzer()
            # the same analyzer for several states
            for again in range(rng.choice([1, 2])):
                one(t, A, f, rng.choice([1, 2, 5, 9, 30] if again else [1, 2, 5, 9, 30, 30, 120]),
                    PH if n % 8 else CROWD)
        ctx.case(f"state{n}", go)
    for n in range(ctx.pick(90, 900)):
        def go(t, n=n):
            t["has"] = False
            many = n % 15 == 14
            PH = CROWD if n % 9 == 8 and not many else globals()["PH"]
            ids = rng.sample(range(50), rng.choice([1, 3, 6, 10]) if not many else 3)
            s, c = fresh_state(rng, ids, rng.sample(PH, rng.choice([1, 2, 3]) if PH is not CROWD else 20) if not many else PH[:1])
            res = SimulationResult(s)
            us = []
            steps = rng.choice([0, 1, 2, 5, 12]) if not many else \
                rng.choice([99, 100, 101, 149, 150, 151, 199, 250] if n % 30 == 14 else
                           [333, 620, 1030])
            early = rng.random() < 0.3
            A = DiscreteResultAnalyzer(res) if early else None

            def add():
                # in a long result, phases turn up late
                some = PH[: 1 + (len(PH) - 1) * len(us) // steps] if many else PH
                u = {i: rng.choice(some) for i in ids if rng.random() < (0.3 if not many else 0.05)}
                if many and len(us) == steps - 1:
                    u[ids[0]] = PH[-1]                  # a phase of the last step only
                us.append({cid(i): p for i, p in u.items()})
                d = {i: {OCC: p} for i, p in u.items()}
                if rng.random() < 0.3:
                    for i in ids:
                        if i not in d and rng.random() < 0.3:
                            d[i] = {"x": 1}
                k = rng.randrange(3)
                res.add_step(d if k == 0 or not d else {SITES: d} if k == 1
                             else {SITES: d, GENERAL: {"t": 1}})

            for _ in range(steps):
                add()
            t.ev("result", start={cid(i): p for i, p in c.items()}, us=list(us))
            if not early:
                A = DiscreteResultAnalyzer(res)

            def f(got, err, g=lambda x: x):
                return {"err": err, **({} if err else {"got": g(got)})}

            for more in range(rng.choice([1, 1, 2]) if not many else 1):
                if more:                        # the result grows after it was analyzed
                    for _ in range(rng.choice([1, 2, 5])):
                        add()
                    t.ev("result", start={cid(i): p for i, p in c.items()}, us=list(us))
                acts = ["all", "final", "at", "at", "plot", "plot", "counts"]
                rng.shuffle(acts)
                if rng.random() < 0.3:
                    call(res.load_steps, rng.choice([1, 2, 3]))
                for a in acts:
                    if a == "all":
                        t.ev("all", **f(*call(A.all_phases), list))
                    elif a == "final":
                        t.ev("final", **f(*call(A.final_phase_fractions),
                                          lambda d: {p: frac(x) for p, x in d.items()}))
                    elif a == "at":
                        k, p = rng.randrange(len(us) + 1), rng.choice(PH)
                        t.ev("at", k=k, p=p, **f(*call(A.phase_fraction_at, k, p), frac))
                    elif a == "counts":
                        plt.close("all")
                        got, err = call(A.plot_phase_counts)
                        lines = plt.gca().lines if not err else []
                        if len(lines) == 1:
                            xs, ys = lines[0].get_data()
                            t.ev("counts", err="", xs=[int(x) for x in xs],
                                 ys=[int(y) for y in ys])
                        else:
                            t.ev("counts", err=err or f"{len(lines)} lines were drawn")
                        plt.close("all")
                    else:
                        lim = rng.choice([None, (1, 2003), (-1, 1), (617, 1999), (1801, 1999), (2, 1)])
                        fig, err = call(A.plot_phase_fractions, lim[0] / lim[1]) if lim else \
                            call(A.plot_phase_fractions)
                        g = {"err": err, "lim": list(lim or (1, 100))}
                        if not err:
                            tr = [{"p": x.name, "xs": [int(v) for v in x.x],
                                   "ys": [frac(v) for v in x.y]} for x in fig.data]
                            g.update(traces=tr, xs=tr[0]["xs"] if tr else [])
                        t.ev("plot", **g)
        ctx.case(f"result{n}", go)
