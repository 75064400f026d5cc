"""Images and animations of square grids: V01, V02."""
import os
import sys
import time
import types

import numpy as np
from PIL import Image, ImageDraw
from pylattica.core import SimulationResult, SimulationState
from pylattica.core.constants import GENERAL, SITES
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.visualization import (DiscreteCellArtist, ResultArtist, SquareGridArtist2D,
                                     SquareGridArtist3D)
from pylattica.visualization.cell_artist import CellArtist
from pylattica.visualization.colors import COLORS
from pylattica.visualization.helpers import color_map

from d_neighbors import grid
from lib import call

PALETTE = len(set(COLORS))
PH = ["A", "B", "C", "D", "E", "Fe2O3", "x", "VACANT", ""]
MANY = PH + ["P%d" % k for k in range(PALETTE - len(PH))]

def num(c):
    return (c[0] << 16) + (c[1] << 8) + c[2]


def nums(cm):
    return {str(p): num(c) for p, c in cm.items()}


def square(ctx, t, big=False, wide=False):
    """A grid, its locations by ID and its size, rectangular more often than not."""
    rng = ctx.rng
    nx = rng.randrange(1, 6)
    ny = nx if rng.random() < 0.3 else rng.randrange(1, 6)
    if wide:                    # wide enough for labels to be read
        nx = rng.randrange(5, 8)
    if big:
        nx, ny = rng.choice([rng.randrange(2, 12), 9]), rng.randrange(5, 12)
    h = grid(ctx, t, [nx, ny])
    head = {k: t.d[k] for k in ("id", "crash", "ev")}
    t.d.clear()
    t.d.update(head)
    t["L"], t["nx"], t["ny"] = [s["loc"] for s in h.sites], nx, ny
    return h.struct


class Own(CellArtist):
    """Colors written by a user: by two values of the state."""

    def __init__(self, cm):
        self.cm = cm

    def get_color_from_cell_state(self, cell_state):
        return self.cm.get(self.get_cell_legend_label(cell_state), (0, 0, 0))

    def get_cell_legend_label(self, cell_state):
        return cell_state["kind"] + str(cell_state["level"])


def blocks(img, nx, ny, cs, label="", below=22):
    """The colors found in every cell; text in the corner is looked past."""
    px = img.load()
    tx = 5 + 8 * len(label) + 6 if label else 0

    def seen(r, k):
        out = set()
        for y in range(r * cs, (r + 1) * cs):
            for x in range(k * cs, (k + 1) * cs):
                if y < below and x < tx:
                    continue
                if x >= img.size[0] or y >= img.size[1]:
                    out.add(-1)
                    continue
                out.add(num(px[x, y]))
        return sorted(out)
    return [[seen(r, k) for k in range(nx)] for r in range(ny)]


def rest(img, nx, cs, least):
    w, h = img.size
    if nx * cs >= w:
        return []
    part = img.crop((nx * cs, 0, w, h))
    return sorted([num(c), k] for k, c in part.getcolors(w * h) if k >= least)


def words(img, nx, cs, count, labels):
    """The label read in every row of the legend, with the color next to it."""
    out = []
    for r in range(count):
        # right of the swatch, where the text is
        x0, y0 = nx * cs + 5 + cs // 4 + cs, r * cs + cs // 4
        if x0 + 4 >= img.size[0] or y0 + 14 >= img.size[1]:
            return None
        y1 = min(y0 + cs + cs // 4, img.size[1]) if r == count - 1 else y0 + cs
        row = img.crop((x0, y0, img.size[0], y1)).convert("L").point(lambda v: 255 * (v > 80))
        box = row.getbbox()
        seen = row.crop(box).tobytes() if box else b""
        read = [p for p in labels if glyphs(p) == seen]
        if len(read) != 1 or not seen and cs < 16:
            return None                 # cut off, or not the default font
        out.append([num(img.getpixel((x0 - cs // 2, y0 + cs // 2))), read[0]])
    return out


def glyphs(word, cache={}):
    if word not in cache:
        img = Image.new("RGB", (400, 60))
        ImageDraw.Draw(img).text((10, 10), word, (255, 255, 255))
        img = img.convert("L").point(lambda v: 255 * (v > 80))
        box = img.getbbox()
        cache[word] = img.crop(box).tobytes() if box else b""
    return cache[word]


def alpha(word, cache={}):
    """How much of every pixel a label covers, from its place at (5, 5)."""
    if word not in cache:
        img = Image.new("L", (100, 18))
        ImageDraw.Draw(img).text((5, 5), word, 255)
        cache[word] = np.asarray(img, dtype=float)[..., None] / 255
    return cache[word]


def label_of(img, nx, cs):
    """The number of the step read from the label, -1 where it cannot be read, -2 where there
    is none."""
    if nx * cs < 100:
        return -1
    img = np.asarray(img.convert("RGB"), dtype=float)
    part = img[:18, :100]
    below = np.broadcast_to(img[cs - 1, :100], part.shape)      # the cells without the label
    off = []
    for k in range(120):
        a = alpha(f"Step {k}")
        off.append((float(np.abs(part - (below * (1 - a) + 255 * a)).sum()), k))
    off.sort()
    if np.abs(part - below).sum() < 90 and off[0][0] > 900:
        return -2
    # sure enough, and no other comes close
    return off[0][1] if off[0][0] < 900 and off[1][0] > off[0][0] + 900 else -1


def colors(rng, k):
    kind = rng.randrange(4)
    if kind == 3:                   # colors that are nearly the same
        c, i = [rng.choice([9, 20, 99, 100, 199, 200, 245]) for _ in range(3)], rng.randrange(3)
        near = {tuple(x + (d if j == i else 0) for j, x in enumerate(c)) for d in range(-9, 11)}
        return [rng.choice(sorted(near)) for _ in range(k)]
    if kind == 0:
        return rng.sample([c for c in dict.fromkeys(COLORS)], k)
    if kind == 1:
        return [tuple(rng.randrange(256) for _ in range(3)) for _ in range(k)]
    return [rng.choice([(255, 0, 0), (0, 255, 0), (0, 0, 255), (1, 1, 1)]) for _ in range(k)]


class Notebook:
    """Stands in for IPython.display and keeps what is displayed."""

    def __enter__(self):
        self.images, self.cleared = [], 0
        mod = types.ModuleType("IPython.display")
        self.times = []

        def display(*objs, **_):
            self.images.extend(objs)
            self.times.append(time.monotonic())
        mod.display = display

        def clear_output(*_, **__):
            self.cleared += 1
        mod.clear_output = clear_output
        top = types.ModuleType("IPython")
        top.display = mod
        top.version_info, top.get_ipython = (8, 24, 0), lambda: None    # matplotlib asks
        self.old = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
        sys.modules.update({"IPython": top, "IPython.display": mod})
        return self

    def __exit__(self, *_):
        for k, m in self.old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


def shown_in_notebook(f):
    with Notebook() as nb:
        _, err = call(f)
    if not err and len(nb.images) != 1:
        return None, f"{len(nb.images)} images displayed"
    return (None, err) if err else (nb.images[0], "")


def v01(ctx):
    rng = ctx.rng

    for n in range(ctx.pick(130, 1200)):
        def go(t, n=n):
            big = n % 10 == 9
            struct = square(ctx, t, big)
            ids = list(struct.site_ids)
            ps = rng.sample(PH, rng.choice([1, 2, 3, 8])) if not big else \
                rng.sample(MANY, rng.choice([3, 9, 16, 24, 24, PALETTE]))
            key = rng.choice([OCC, OCC, "other"])
            how = rng.randrange(7)
            def fill(s, cells, which):
                for i in rng.sample(which, len(which)):
                    if how == 6:
                        u = {"kind": rng.choice("AB"), "level": rng.randrange(3)}
                        cells[i] = u["kind"] + str(u["level"])
                    else:
                        cells[i] = rng.choice(ps)
                        u = {key: cells[i]}
                        if key != OCC and rng.random() < 0.5:
                            u[OCC] = rng.choice(PH)
                    s.set_site_state(i, u)
                if rng.random() < 0.3:
                    s.set_general_state({"step": rng.randrange(9)})
                t.ev("state", cells=[cells[i] for i in ids])
            s = SimulationState.from_struct(struct) if rng.random() < 0.5 else SimulationState()
            cells = {}
            fill(s, cells, ids)
            kw = {} if key == OCC and rng.random() < 0.5 else {"state_key": key}
            given = None
            if how == 0:
                cm = {p: c for p, c in zip(ps, colors(rng, len(ps)))}
                art, err = call(DiscreteCellArtist, dict(cm), **kw)
            elif how == 1:          # some phases have no color
                cm = {p: c for p, c in zip(ps, colors(rng, len(ps))) if rng.random() < 0.5}
                if not cm and rng.random() < 0.5:
                    art, err = call(DiscreteCellArtist, **kw)
                else:
                    art, err = call(DiscreteCellArtist, color_map=dict(cm), **kw)
            elif how == 2:          # the legend is given
                cm = {p: c for p, c in zip(ps, colors(rng, len(ps)))}
                given = rng.sample(ps, rng.randrange(1, len(ps) + 1))
                art, err = call(DiscreteCellArtist, dict(cm), legend={p: cm[p] for p in given},
                                **kw)
            elif how == 3 and key == OCC:
                art, err = call(DiscreteCellArtist.from_discrete_state, s)
                cm = dict(art.color_map) if art else {}
            elif how == 6:
                cm = dict(zip(["A0", "A1", "A2", "B0", "B1"], colors(rng, 5)))
                art, err = Own(cm), ""
            else:
                ph = ps + [p for p in PH if p not in ps][: rng.randrange(3)]
                rng.shuffle(ph)
                art, err = call(DiscreteCellArtist.from_phase_list, ph, **kw)
                cm = dict(art.color_map) if art else {}
            if err:
                t.ev("state", err=err)
                return
            cm = nums(cm)
            G = SquareGridArtist2D(struct, art)
            # the artist goes on to other states, or to the same one after changes
            for rep in range(1 if big else rng.choice([1, 1, 2, 3])):
                if rep:
                    if rng.random() < 0.5 or how == 6:
                        fill(s, cells, rng.sample(ids, rng.randrange(len(ids) + 1)))
                    else:
                        ps = rng.sample(PH, rng.choice([1, 2, 3]))
                        s = SimulationState()
                        fill(s, cells, ids)
                draw(t, s, cells, art, G, cm, given)

        def draw(t, s, cells, art, G, cm, given):
            nx, ny = t.d["nx"], t.d["ny"]
            ids = list(G.structure.site_ids)
            present = sorted(set(cells.values()))
            shown = present if given is None else given
            if given is None and rng.random() < 0.8:
                got, err = call(art.get_legend, s)
                t.ev("legend", step=0, cmap=cm, err=err, got={} if err else nums(got))
                if not err and rng.random() < 0.3:
                    got.clear()         # the legend is the caller's
            for i in rng.sample(ids, min(2, len(ids))):
                got, err = call(art.get_color_from_cell_state, s.get_site_state(i))
                t.ev("color", p=cells[i], cmap=cm, err=err, got=-1 if err else num(got))
            cs = rng.choice([1, 2, 3, 4, 7, 12, 16, 20])
            label = rng.choice(["", "", "", "Step 5"])
            kw = {"cell_size": cs}
            if label:
                kw = {"cell_size": 24, "label": label}
                cs = 24
            elif rng.random() < 0.2:
                kw, cs = {}, 20
            how = rng.randrange(5)
            if how < 2:
                img, err = call(G.get_img, s, **kw)
            elif how == 4:
                img, err = shown_in_notebook(lambda: G.jupyter_show(s, **kw))
            else:
                f = os.path.join(ctx.tmp(), "x.png")
                got, err = call(G.save_img, s, f, **kw)
                if not err:
                    img = Image.open(f).convert("RGB")
            sw = max(1, cs * cs // 2)
            t.ev("image", step=0, cmap=cm, err=err, **({} if err else {
                "blocks": blocks(img, nx, ny, cs, label), "rest": rest(img, nx, cs, sw),
                "swatch": sw, "legend": shown,
                "words": words(img, nx, cs, len(shown), MANY + [p for p in present if p not in MANY]) or []}))
            if not err and rng.random() < 0.3:
                img.paste((9, 9, 9), (0, 0, *img.size))     # the image is the caller's
        ctx.case(f"image{n}", go)

    for n in range(ctx.pick(60, 400)):
        def go(t, n=n):
            t["L"], t["nx"], t["ny"] = [], 0, 0
            k = rng.choice([0, 1, 2, 5, 20, PALETTE - 1, PALETTE, PALETTE + 1, 100])
            ps = [f"p{j}" if j else "" for j in range(k)]
            rng.shuffle(ps)
            pick = n % 4

            def ev(of, got, err, phases=()):
                t.ev("map", of=of, phases=list(phases), err=err, palette=PALETTE,
                     got={} if err else nums(got))
            if pick == 0:
                got, err = call(DiscreteCellArtist.build_color_map_from_phase_list, ps)
                ev("list", got, err, ps)
                if k <= PALETTE:
                    got, err = call(color_map, ps)
                    ev("list", got, err, ps)
            elif pick == 1:
                got, err = call(DiscreteCellArtist.from_phase_list, ps)
                ev("list", err or got.color_map, err, ps)
            else:
                m = rng.choice([1, 5, 40])
                s = SimulationState()
                st = [rng.choice(ps or ["z"]) for _ in range(m)]
                for i in range(m):
                    s.set_site_state(i, {OCC: st[i]})
                if pick == 2:
                    t.ev("state", cells=st)
                    got, err = call(DiscreteCellArtist.from_discrete_state, s)
                    ev("state", err or got.color_map, err)
                else:
                    r, us = history(ctx, s, m, ps or ["z"], rng.choice([0, 1, 5, 20]))
                    t.ev("result", start=st, us=us)
                    got, err = call(DiscreteCellArtist.from_discrete_result, r)
                    ev("result", err or got.color_map, err)
        ctx.case(f"map{n}", go)


# colors with the same digits, sums or parts
CLOSE = [(1, 16, 0), (17, 0, 0), (1, 1, 0), (11, 0, 0), (1, 10, 0), (110, 0, 0), (1, 0, 1), (0, 1, 1),
         (0, 17, 0), (0, 0, 17), (17, 0, 1), (17, 16, 0), (255, 255, 255), (255, 255, 254)]


def v03(ctx):
    rng = ctx.rng
    from matplotlib.colors import to_rgba_array
    from mpl_toolkits.mplot3d import axes3d

    drawn = []
    orig = axes3d.Axes3D.voxels

    def voxels(ax, *args, **kw):
        """Notes the boxes that are drawn, and draws them."""
        filled = np.asarray(kw["filled"] if "filled" in kw else args[-1]).astype(bool)
        fc = np.asarray(kw.get("facecolors", "blue"))
        if fc.dtype.kind in "OU" and fc.shape == filled.shape or fc.ndim == 4:
            flat = fc.reshape(-1) if fc.ndim == 3 else fc.reshape(-1, fc.shape[-1])
            rgba = to_rgba_array(flat).reshape(*filled.shape, 4)
        else:
            rgba = np.broadcast_to(to_rgba_array(kw.get("facecolors", "blue"))[0],
                                   (*filled.shape, 4))
        for at in np.argwhere(filled):
            c = rgba[tuple(at)]
            if c[3] > 0.5:              # the rest of the grid is only hinted at
                drawn.append([[int(x) for x in at], num([int(round(255 * x)) for x in c[:3]])])
        return orig(ax, *args, **kw)

    axes3d.Axes3D.voxels = voxels
    for n in range(ctx.pick(34, 200)):
        def go(t, n=n):
            dims = [rng.randrange(1, 5)] * 3 if rng.random() < 0.3 else \
                [rng.randrange(1, 5) for _ in range(3)]
            h = grid(ctx, t, dims)
            head = {k: t.d[k] for k in ("id", "crash", "ev")}
            t.d.clear()
            t.d.update(head)
            t["L"], t["n"] = [s["loc"] for s in h.sites], dims
            ids = list(h.struct.site_ids)
            ps = rng.sample(PH, rng.choice([1, 2, 3, 8])) if n % 8 else rng.sample(MANY, 24)
            key = rng.choice([OCC, OCC, "other"])
            cs = colors(rng, len(ps)) if rng.random() < 0.5 or n % 8 == 0 else \
                rng.sample(CLOSE, len(ps))
            cm = {p: c for p, c in zip(ps, cs) if rng.random() < 0.9}
            kw = {} if key == OCC and rng.random() < 0.5 else {"state_key": key}
            G = SquareGridArtist3D(h.struct, DiscreteCellArtist(dict(cm), **kw))
            s, cells = None, {}
            for _ in range(rng.choice([1, 1, 2])):
                if s is None or rng.random() < 0.5:
                    s = SimulationState.from_struct(h.struct) if rng.random() < 0.5 else \
                        SimulationState()
                    which = ids
                else:                   # the same state after changes
                    which = rng.sample(ids, rng.randrange(len(ids) + 1))
                for i in rng.sample(which, len(which)):
                    cells[i] = rng.choice(ps + ([p for p in PH if p not in ps][:1] or ps))
                    s.set_site_state(i, {key: cells[i]})
                if rng.random() < 0.3:
                    s.set_general_state({"step": 3})
                t.ev("state", cells=[cells[i] for i in ids])
                solid(t, s, G, cm)

        def solid(t, s, G, cm):
            shell = rng.random() < 0.5
            kw = {"shell_only": shell} if shell or rng.random() < 0.5 else {}
            drawn.clear()
            how = rng.randrange(5)
            if how < 2:
                img, err = call(G.get_img, s, **kw)
            elif how == 4:
                img, err = shown_in_notebook(lambda: G.jupyter_show(s, **kw))
            else:
                f = os.path.join(ctx.tmp(), "x.png")
                img, err = call(G.save_img, s, f, **kw)
                if not err:
                    img = Image.open(f)
            f = {}
            if not err:
                ext = img.convert("RGB").getextrema()
                f = {"boxes": sorted(drawn), "size": list(img.size),
                     "inked": any(a != b for a, b in ext)}
            t.ev("solid", shell=shell, cmap=nums(cm), err=err, **f)
        ctx.case(f"solid{n}", go)


def history(ctx, s, m, ps, steps, few=0.3):
    r = SimulationResult(s)
    return r, grow(ctx, r, m, ps, steps, few)


def grow(ctx, r, m, ps, steps, few):
    rng = ctx.rng
    us = []
    for _ in range(steps):
        u = {i: rng.choice(ps) for i in range(m) if rng.random() < few}
        us.append({str(i + 1): p for i, p in u.items()})
        d = {i: {OCC: p} for i, p in u.items()}
        k = rng.randrange(3)
        r.add_step(d if k == 0 or not d else {SITES: d} if k == 1
                   else {SITES: d, GENERAL: {"t": 1}})
    return us


def steps_of(r, m):
    return [[r.get_step(k).get_site_state(i)[OCC] for i in range(m)] for k in range(len(r))]


def v02(ctx):
    rng = ctx.rng
    from PIL import ImageSequence

    class Failing(DiscreteCellArtist):
        def get_color_from_cell_state(self, cell_state):
            raise KeyError("no color")

    for n in range(ctx.pick(36, 260)):
        def go(t, n=n):
            struct = square(ctx, t, wide=n % 2)
            m = t.d["nx"] * t.d["ny"]
            s = SimulationState.from_struct(struct)
            ps = rng.sample(PH if n % 10 else MANY, rng.choice([2, 3, 8]) if n % 10 else 24)
            st = [rng.choice(ps[: rng.choice([1, 8, 24])]) for _ in range(m)]
            for i in range(m):
                s.set_site_state(i, {OCC: st[i]})
            steps = rng.choice([0, 1, 2, 3, 5, 11, 24]) if n % 12 != 11 else 70
            few = rng.choice([0.05, 0.3, 1])
            r, us = history(ctx, s, m, ps, steps, few)
            t.ev("result", start=st, us=us)
            if rng.random() < 0.3:
                call(r.load_steps, rng.choice([1, 2, 3]))
            cols = rng.sample(list(dict.fromkeys(COLORS)), len(ps))
            cm = dict(zip(ps, cols))
            fails = n % 9 == 8
            art = (Failing if fails else DiscreteCellArtist)(dict(cm))
            G = SquareGridArtist2D(struct, art)
            A = ResultArtist(G, r)
            last = {}
            for k in range(rng.choice([1, 2]) if steps < 30 else 1):
                if k:
                    # the simulation goes on, and so does the artist
                    if rng.random() < 0.5:
                        us = grow(ctx, r, m, ps, rng.choice([1, 2, 4]), few)
                        t.ev("more", us=us)
                    elif rng.random() < 0.5:
                        r, us = history(ctx, s, m, ps, rng.choice([0, 2, 4]), few)
                        t.ev("result", start=st, us=us)
                        A = ResultArtist(G, r)
                    art.color_map.update(zip(ps, cols[::-1]))
                    cm = dict(art.color_map)
                gif(t, A, r, m, cm, fails, last)
                if not fails and rng.random() < 0.5:
                    notebook(t, A, r, m, cm)

        def notebook(t, A, r, m, cm):
            """What is displayed in a notebook."""
            nx, ny = t.d["nx"], t.d["ny"]
            cs = rng.choice([20, 24, 30])
            kw = {} if cs == 20 and rng.random() < 0.5 else {"cell_size": cs}
            if rng.random() < 0.5:
                k = rng.randrange(len(r))
                pause = 0
                with Notebook() as nb:
                    _, err = call(A.jupyter_show_step, k, **kw)
                steps = [k]
            else:
                with Notebook() as nb:
                    wait = rng.choice([0, 0, 0.05]) if len(r) < 12 else 0
                    _, err = call(A.jupyter_play, wait=wait, **kw)
                    pause = wait * 1000
                steps = list(range(len(r)))
            f = {}
            if not err:
                imgs = [i.convert("RGB") for i in nb.images]
                f = {"frames": [blocks(i, nx, ny, cs, "Step 100", 18) for i in imgs],
                     "rests": [rest(i, nx, cs, cs * cs // 2) for i in imgs],
                     "swatch": cs * cs // 2,
                     "labels": [label_of(i, nx, cs) for i in imgs],
                     "wait": int(pause),
                     "pauses": [int(1000 * (b - a)) for a, b in zip(nb.times, nb.times[1:])]}
            t.ev("displayed", err=err, steps=steps, cmap=nums(cm), after=steps_of(r, m), **f)

        def gif(t, A, r, m, cm, fails, last):
            nx, ny = t.d["nx"], t.d["ny"]
            freq = rng.choice([1, 1, 2, 3, 5, len(r), len(r) - 1 or 1])
            again = rng.random() < 0.5 and dict(last)
            where = ctx.tmp()
            os.chdir(where)
            tmp = os.path.join(where, "systmp")
            out = os.path.join(where, "out")
            os.mkdir(tmp)
            os.mkdir(out)
            mine = rng.random() < 0.5
            if mine:                            # a file of the user
                with open("tmp_pylat_step_0.png", "w", encoding="utf-8") as f:
                    f.write("mine")
            old = os.environ.get("TMPDIR")
            os.environ["TMPDIR"] = tmp
            import tempfile
            tempfile.tempdir = None
            cs = rng.choice([24, 24, 30])
            kw = {"cell_size": cs}
            if freq != 1 or rng.random() < 0.3:
                kw["draw_freq"] = freq
            if rng.random() < 0.3:
                kw["wait"] = rng.choice([0.1, 0.25, 1, 2])
            if again:                       # exactly as before
                kw, cs, freq = again, again["cell_size"], again.get("draw_freq", 1)
            last.update(kw)
            try:
                name = os.path.join(out, "a.gif") if rng.random() < 0.7 else "out/a.gif"
                _, err = call(A.to_gif, name, **kw)
            finally:
                if old is None:
                    os.environ.pop("TMPDIR")
                else:
                    os.environ["TMPDIR"] = old
                tempfile.tempdir = None
            left = []
            for d, _, fs in os.walk(where):
                left += [os.path.relpath(os.path.join(d, f), where) for f in fs]
            left = [f for f in left if not f.startswith("out" + os.sep)]
            if mine:
                if "tmp_pylat_step_0.png" in left and open("tmp_pylat_step_0.png",
                                                           encoding="utf-8").read() == "mine":
                    left.remove("tmp_pylat_step_0.png")
                else:
                    left.append("the user's file is gone")
            if not fails or not err:
                left += [f for f in os.listdir(out) if f != "a.gif"]
            after = steps_of(r, m)
            if fails and err:
                t.ev("failed", files=sorted(left), after=after)
                return
            f = {"err": err, "freq": freq, "cmap": nums(cm), "files": sorted(left), "after": after}
            if not err:
                frames, rests, labels, lasts = [], [], [], []
                sw = cs * cs // 2
                for img in ImageSequence.Iterator(Image.open(os.path.join(out, "a.gif"))):
                    # frames that look the same are stored as one that is shown longer
                    shown = img.info.get("duration", 0) / (1000 * kw.get("wait", 0.8))
                    lasts.append(img.info.get("duration", 0))
                    img = img.convert("RGB")
                    got = (blocks(img, nx, ny, cs, f"Step {len(r)}"), rest(img, nx, cs, sw),
                           label_of(img, nx, cs))
                    for _ in range(max(1, round(shown))):
                        frames.append(got[0])
                        rests.append(got[1])
                        labels.append(got[2])
                f.update(frames=frames, rests=rests, labels=labels, swatch=sw,
                         lasts=[int(x) for x in lasts],
                         wait=int(1000 * kw["wait"]) if "wait" in kw else 0)
            t.ev("gif", **f)
        ctx.case(f"gif{n}", go)
