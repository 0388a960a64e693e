"""Pictures show the colour of each site's state at its place, frame by frame."""

import contextlib
import itertools
import multiprocessing
import os
import sys
import time
import types

import numpy as np
from PIL import Image, ImageDraw, ImageSequence

from pylattica.core import PeriodicStructure, SimulationResult, SimulationState
from pylattica.core.periodic_structure import LOCATION, SITE_ID
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.square_grid.lattice import SquareGridLattice2D, SquareGridLattice3D
from pylattica.visualization import (
    CellArtist,
    DiscreteCellArtist,
    ResultArtist,
    SquareGridArtist2D,
    SquareGridArtist3D,
)
from pylattica.visualization.helpers import color_map

from .. import explore, vpool

BOUNDS = (
    "square grids of 1-5 cells a side, sites in 3 orders; all states of 3 phases (2 for 3x3 "
    "and, thorough, 4x4 grids; single cells and all-different cells beyond), 7 cell sizes, 6 "
    "kinds of cell artists; cubes of 1-3 cells a side, all states of 2 phases up to 2x2x2; "
    "palettes of 1-32 phases; animations of up to 5 steps, 3 frequencies, under all "
    "assignments of frames to 1-3 workers, and as drawn on Windows; fixed states of grids of "
    "6-33 cells a side with up to 101 phases and animations of up to 130 steps"
)
ASSUMPTIONS = [
    "grids are square and cubic",
    "at most 32 phases get colours",
    "states with the same label have the same colour",
    "animations are drawn at cell sizes at which the labels of two steps differ",
]

CELL_SIZES = (1, 2, 3, 4, 7, 8, 20)
COLOURS = {"A": (255, 0, 0), "B": (0, 255, 0), "C": (0, 0, 255), "D": (200, 100, 7)}


def cases(tier):
    out = []
    for size in range(1, 6):
        for order in ("rows", "columns", "reversed"):
            out.append({"kind": "grid", "size": size, "order": order})
    for first in itertools.product("AB", repeat=3):
        out.append({"kind": "grid3", "first": "".join(first)})
    if tier != "quick":
        for first in itertools.product("AB", repeat=6):
            out.append({"kind": "grid4", "first": "".join(first)})
    for cell_size in CELL_SIZES:
        out.append({"kind": "artists", "cell_size": cell_size})
    out.append({"kind": "palette"})
    out += [{"kind": "palette of states", "first": a} for a in "ABCD"]
    out += [{"kind": "cube", "size": 1}, {"kind": "cube", "size": 3},
            {"kind": "cube", "size": 4}]
    for first in itertools.product("AB", repeat=4):
        out.append({"kind": "cube", "size": 2, "first": "".join(first)})
    for cpus in (1, 2, 3):
        for steps in range(0, 5 if tier == "quick" else 7):
            for freq in (1, 2, 3):
                out.append({"kind": "animation", "cpus": cpus, "steps": steps, "freq": freq})
    for steps, freq in ((11, 1), (33, 3), (104, 1), (130, 11)):
        out.append({"kind": "long", "steps": steps, "freq": freq})
    for size in (6, 9, 12, 33):
        out.append({"kind": "large", "size": size})
    out.append({"kind": "two animations"})
    out.append({"kind": "saved"})
    return out


def run(case, ctx):
    {"grid": _grid, "grid3": _grid3, "grid4": _grid4, "artists": _artists,
     "palette": _palette, "palette of states": _palette_states, "cube": _cube,
     "animation": _animation, "long": _long, "large": _large, "two animations": _two, "saved": _saved}[case["kind"]](case, ctx)


def grid(size, order="rows", dim=2):
    lattice = (SquareGridLattice2D if dim == 2 else SquareGridLattice3D)()
    struct = PeriodicStructure(lattice.get_scaled_lattice([size] * dim))
    cells = list(itertools.product(range(size), repeat=dim))
    if order == "columns":
        cells.sort(key=lambda c: c[::-1])
    elif order == "reversed":
        cells.reverse()
    for c in cells:
        struct.add_site("G", tuple(float(x) for x in c))
    return struct, {s[SITE_ID]: tuple(round(x) for x in s[LOCATION]) for s in struct.sites()}


def state_of(phases, key=OCC, shuffled=False):
    """phases: site -> phase"""
    state = SimulationState()
    items = list(phases.items())
    for s, p in reversed(items) if shuffled else items:
        state.set_site_state(s, {key: p})
    return state


def picture(size, cell, colour_at, legend, label=None):
    """The picture of a grid, drawn independently: x to the right, y upwards, then a white
    line, then the legend in the order of its labels."""
    rows = max(size, len(legend) + 1) * cell
    out = np.zeros((rows, (size + 6) * cell + 5, 3), dtype=np.uint8)
    for (x, y), colour in colour_at.items():
        top = (size - 1 - y) * cell
        out[top : top + cell, x * cell : (x + 1) * cell] = colour
    out[:, size * cell : size * cell + 5] = 255
    quarter = cell // 4
    left = size * cell + 5 + quarter
    names = sorted(legend)
    for i, name in enumerate(names):
        top = i * cell + quarter
        out[top : top + cell, left : left + cell] = legend[name]
    image = Image.fromarray(out)
    draw = ImageDraw.Draw(image)
    for i, name in enumerate(names):
        top = i * cell + quarter
        draw.text((int(left + cell + cell / 4), int(top + cell / 4)), name, (255, 255, 255))
    if label is not None:
        draw.text((5, 5), label, (255, 255, 255))
    return image


def same_picture(ctx, got, want, message, **info):
    ctx.equal(got.size, want.size, message + ": size of the picture", **info)
    a, b = np.asarray(got.convert("RGB")), np.asarray(want)
    if not np.array_equal(a, b):
        y, x = (int(i[0]) for i in np.nonzero((a != b).any(axis=2)))
        ctx.fail(message, pixel=(x, y), got=a[y, x].tolist(), want=b[y, x].tolist(), **info)


def drawn(ctx, struct, where, phases, cell, artist=None, shuffled=False, colours=None,
          legend=None, key=OCC, **kwargs):
    """One state, drawn and compared. phases: site -> phase."""
    size = round(len(phases) ** 0.5)
    colours = colours or COLOURS
    artist = artist or DiscreteCellArtist(dict(COLOURS))
    state = state_of(phases, key, shuffled)
    got = SquareGridArtist2D(struct, artist).get_img(state, cell_size=cell, **kwargs)
    if legend is None:
        legend = {str(p): colours.get(p, (0, 0, 0)) for p in phases.values()}
    want = picture(size, cell, {where[s]: colours.get(p, (0, 0, 0)) for s, p in phases.items()},
                   legend, kwargs.get("label"))
    same_picture(ctx, got, want, "wrong picture", phases=phases, cell_size=cell)
    ctx.step()
    ctx.trace()
    ctx.state((tuple(sorted(phases.items())), cell))


def _grid(case, ctx):
    size = case["size"]
    struct, where = grid(size, case["order"])
    ids = sorted(where)
    n = len(ids)
    if n <= 4:
        states = list(itertools.product("ABC", repeat=n))
    else:
        # each cell on its own, each cell with another phase, and cells that are all different
        states = [["A"] * n, list("ABCD" * n)[:n], list("AABCCDA" * n)[:n]]
        for i in range(n):
            states.append(["B" if j == i else "A" for j in range(n)])
    for i, chosen in enumerate(states):
        drawn(ctx, struct, where, dict(zip(ids, chosen)), CELL_SIZES[i % 6], shuffled=i % 2)
    many = {s: f"P{s:02d}" for s in ids}
    colours = {p: (i * 9, 250 - i * 7, 40 + i * 3) for i, p in enumerate(many.values())}
    for cell in CELL_SIZES:
        drawn(ctx, struct, where, many, cell, DiscreteCellArtist(colours), colours=colours)
        drawn(ctx, struct, where, many, cell, DiscreteCellArtist(colours), colours=colours,
              label="Step 3")
    got = SquareGridArtist2D(struct, DiscreteCellArtist(colours)).get_img(state_of(many))
    want = picture(size, 20, {where[s]: colours[p] for s, p in many.items()}, colours)
    same_picture(ctx, got, want, "wrong picture with the default cell size")


def _grid3(case, ctx):
    struct, where = grid(3)
    ids = sorted(where)
    for i, rest in enumerate(itertools.product("AB", repeat=6)):
        phases = dict(zip(ids, tuple(case["first"]) + rest))
        drawn(ctx, struct, where, phases, 1 + i % 5)


def _grid4(case, ctx):
    struct, where = grid(4, "columns")
    ids = sorted(where)
    for i, rest in enumerate(itertools.product("AB", repeat=10)):
        phases = dict(zip(ids, tuple(case["first"]) + rest))
        drawn(ctx, struct, where, phases, 1 + i % 4)


class Level(CellArtist):
    """A cell artist of our own: greys from numbers."""

    def get_color_from_cell_state(self, cell_state):
        v = cell_state["level"]
        return (v * 20, v * 20, 255 - v * 20)

    def get_cell_legend_label(self, cell_state):
        return f"level {cell_state['level']}"


def _artists(case, ctx):
    cell = case["cell_size"]
    for size in (1, 2, 3):
        struct, where = grid(size)
        ids = sorted(where)
        for chosen in itertools.islice(itertools.product("ABZ", repeat=len(ids)), 0, 243, 2):
            phases = dict(zip(ids, chosen))
            ctx.at(phases=phases)
            # unknown phases are black
            drawn(ctx, struct, where, phases, cell)
            # another key of the state
            drawn(ctx, struct, where, phases, cell, key="other",
                  artist=DiscreteCellArtist(dict(COLOURS), state_key="other"))
            # a legend of one's own
            legend = {"second": (1, 2, 3), "first": (9, 8, 7), "third": (50, 60, 70)}
            drawn(ctx, struct, where, phases, cell, legend=legend,
                  artist=DiscreteCellArtist(dict(COLOURS), legend=dict(legend)))
            # colours made up from a list, and from the state
            artist = DiscreteCellArtist.from_phase_list(list("BAZQ"))
            colours = {p: tuple(artist.get_color_from_cell_state({OCC: p})) for p in "ABZQ"}
            drawn(ctx, struct, where, phases, cell, artist=artist, colours=colours)
            artist = DiscreteCellArtist.from_discrete_state(state_of(phases))
            colours = {p: tuple(artist.get_color_from_cell_state({OCC: p})) for p in "ABZ"}
            ctx.equal(len({colours[p] for p in set(chosen)}), len(set(chosen)),
                      "two phases of a state have the same colour")
            drawn(ctx, struct, where, phases, cell, artist=artist, colours=colours)
        for chosen in itertools.islice(itertools.product(range(0, 12, 3), repeat=len(ids)),
                                       0, 256, 3):
            state = SimulationState()
            for s, v in zip(ids, chosen):
                state.set_site_state(s, {"level": v, OCC: "A"})
            colour = {v: (v * 20, v * 20, 255 - v * 20) for v in chosen}
            want = picture(size, cell, {where[s]: colour[v] for s, v in zip(ids, chosen)},
                           {f"level {v}": c for v, c in colour.items()})
            got = SquareGridArtist2D(struct, Level()).get_img(state, cell_size=cell)
            same_picture(ctx, got, want, "wrong picture with a cell artist of one's own")
            ctx.step()


def _palette(case, ctx):
    for n in range(0, 33):
        for names in ([f"p{i}" for i in range(n)], [f"q{n - i}" for i in range(n)]):
            for made in (color_map(names), DiscreteCellArtist.build_color_map_from_phase_list(names),
                         DiscreteCellArtist.from_phase_list(names).color_map):
                ctx.equal(sorted(made), sorted(names), "wrong phases have colours", n=n)
                seen = {}
                for p, c in made.items():
                    c = tuple(c)
                    ctx.check(len(c) == 3 and all(0 <= int(v) <= 255 for v in c),
                              "not a colour", phase=p, colour=c)
                    ctx.check(c != (0, 0, 0), "a known phase is black", phase=p)
                    ctx.check(c not in seen, "two phases have the same colour",
                              phases=(p, seen.get(c)), n=n)
                    seen[c] = p
                ctx.step()
        ctx.state(n)
        ctx.trace()
    # ... of whole results: phases that are there only for a while have colours too
    for n in range(1, 33):
        start = state_of({0: "p0", 1: "p0"})
        result = SimulationResult(start)
        for i in range(1, n):
            result.add_step({i % 2: {OCC: f"p{i}"}})
        artist = DiscreteCellArtist.from_discrete_result(result)
        colours = {artist.get_color_from_cell_state({OCC: f"p{i}"}) for i in range(n)}
        ctx.equal(len(colours), n, "phases of a result share colours", n=n)
        ctx.check((0, 0, 0) not in colours, "a phase of a result is black", n=n)
        ctx.trace()


def _palette_states(case, ctx):
    for rest in itertools.product("ABCD", repeat=4):
        chosen = (case["first"],) + rest
        state = state_of(dict(enumerate(chosen)))
        artist = DiscreteCellArtist.from_discrete_state(state)
        colours = {p: artist.get_color_from_cell_state({OCC: p}) for p in set(chosen)}
        ctx.equal(len(set(colours.values())), len(colours), "two phases share a colour",
                  phases=chosen)
        ctx.check((0, 0, 0) not in colours.values(), "a phase is black", phases=chosen)
        ctx.equal(artist.get_color_from_cell_state({OCC: "other"}), (0, 0, 0),
                  "an unknown phase is not black")
        legend = artist.get_legend(state)
        ctx.equal(legend, colours, "wrong legend", phases=chosen)
        for other in ("A", "AB", "DCBA"):
            got = artist.get_legend(state_of(dict(enumerate(other))))
            ctx.equal(got, {p: colours.get(p, (0, 0, 0)) for p in other},
                      "wrong legend of another state", phases=chosen, other=other)
        ctx.state(chosen)
        ctx.step(5)
    ctx.trace()


@contextlib.contextmanager
def voxels():
    """Records what is drawn by voxels, as cell -> the opaque colour on top of it."""
    from mpl_toolkits.mplot3d.axes3d import Axes3D

    calls = []

    def record(self, *args, facecolors=None, edgecolors=None, **kwargs):
        args = [a for a in args]
        filled = np.asarray(args[-1] if args else kwargs["filled"]).astype(bool)
        calls.append((filled, facecolors))
        return {}

    original = Axes3D.voxels
    Axes3D.voxels = record
    try:
        yield calls
    finally:
        Axes3D.voxels = original


def solid(ctx, calls, size):
    from matplotlib.colors import to_rgba

    out = {}
    for filled, colours in calls:
        ctx.equal(filled.shape, (size,) * 3, "wrong number of cells are drawn")
        whole = np.asarray(colours, dtype=object)
        for cell in zip(*(i.tolist() for i in np.nonzero(filled))):
            one = colours
            if whole.ndim >= 3 and whole.shape[:3] == (size,) * 3:
                one = whole[cell]
            rgba = to_rgba(tuple(one) if not isinstance(one, str) else one)
            if rgba[3] < 1:
                continue
            ctx.check(cell not in out, "a cell is drawn twice", cell=cell)
            out[cell] = tuple(int(round(v * 255)) for v in rgba[:3])
    return out


def _cube(case, ctx):
    size = case["size"]
    n = size**3
    for order in ("rows", "columns", "reversed"):
        if size == 2 and order != "rows" and case["first"] != "ABAA":
            continue
        struct, where = grid(size, order, 3)
        ids = sorted(where)
        if size == 1:
            states = [["A"], ["B"], ["Z"]]
        elif size == 2:
            states = [tuple(case["first"]) + r for r in itertools.product("AB", repeat=4)]
        else:
            states = [["A"] * n, list("ABCD" * n)[:n], list("AABCCDA" * n)[:n],
                      list("ABZZB" * n)[:n]]
        for i, chosen in enumerate(states):
            for shell in ((None, False, True) if size != 2 else (None, True)):
                phases = dict(zip(ids, chosen))
                ctx.at(phases=phases, shell=shell)
                kwargs = {} if shell is None else {"shell_only": shell}
                with voxels() as calls:
                    artist = SquareGridArtist3D(struct, DiscreteCellArtist(dict(COLOURS)))
                    img = artist.get_img(state_of(phases, shuffled=i % 2), **kwargs)
                ctx.check(img.size[0] > 0, "no picture")
                want = {}
                for s, p in phases.items():
                    x, y, z = where[s]
                    if not shell or y == 0 or x == size - 1 or z == size - 1:
                        want[where[s]] = COLOURS.get(p, (0, 0, 0))
                ctx.equal(solid(ctx, calls, size), want, "wrong cells are drawn")
                ctx.state((size, chosen, shell))
                ctx.step()
            ctx.trace()
    if size == 1:
        # for real
        struct, where = grid(2, "rows", 3)
        seen = []
        for p in "AB":
            state = state_of({s: p for s in where})
            img = SquareGridArtist3D(struct, DiscreteCellArtist(dict(COLOURS))).get_img(state)
            seen.append(np.asarray(img.convert("RGB")).reshape(-1, 3).astype(int))
        ctx.check((seen[0][:, 0] - seen[0][:, 1]).max() > 100, "nothing red is drawn")
        ctx.check((seen[1][:, 1] - seen[1][:, 0]).max() > 100, "nothing green is drawn")


UPDATES = [{0: "B"}, {3: "C", 1: "B"}, {}, {0: "D", 2: "D"}, {1: "A"}, {0: "C"}]


def story(steps):
    struct, where = grid(2)
    result = SimulationResult(state_of({s: "A" for s in sorted(where)}))
    now = {s: "A" for s in where}
    history = [dict(now)]
    for u in UPDATES[:steps]:
        result.add_step({s: {OCC: p} for s, p in u.items()})
        now.update(u)
        history.append(dict(now))
    return struct, where, result, history


def frame(where, phases, cell, i, colours=None):
    colours = colours or COLOURS
    return picture(2, cell, {where[s]: colours[p] for s, p in phases.items()},
                   {p: colours[p] for p in phases.values()}, f"Step {i}")


@contextlib.contextmanager
def notebook():
    """A stand-in for a notebook, which records what it is shown."""
    log = []
    module = types.ModuleType("IPython.display")
    module.display = lambda *objs, **_: log.extend(("display", o) for o in objs)
    module.clear_output = lambda *_, **__: log.append(("clear", None))
    parent = types.ModuleType("IPython")
    parent.display = module
    saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
    sys.modules.update({"IPython": parent, "IPython.display": module})
    sleep = time.sleep
    time.sleep = lambda s: log.append(("wait", s))
    try:
        yield log
    finally:
        time.sleep = sleep
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def gif(ctx, name, want, wait):
    """want: the frames"""
    with Image.open(name) as image:
        frames = [(f.convert("RGB"), f.info.get("duration")) for f in
                  ImageSequence.Iterator(image)]
        if len(want) > 1:
            ctx.equal(image.info.get("loop"), 0, "the animation does not repeat")
    ctx.equal(len(frames), len(want), "wrong number of frames")
    reference = [np.asarray(w).astype(int) for w in want]
    height = max(r.shape[0] for r in reference)
    for i, (got, duration) in enumerate(frames):
        a = np.asarray(got).astype(int)
        ctx.equal(a.shape[1], reference[i].shape[1], "wrong width of a frame", frame=i)
        if len(want) > 1:
            ctx.check(abs(duration - wait * 1000) <= 10, "wrong duration", got=duration,
                      want=wait * 1000)
        rows = min(a.shape[0], reference[i].shape[0], min(r.shape[0] for r in reference))
        off = [np.abs(a[:rows] - r[:rows]).mean() for r in reference]
        ctx.check(off[i] < 3, "wrong frame", frame=i, off=float(off[i]), height=height)
        # the cells themselves, on their lower edges, where no label is
        for (x, y) in itertools.product(range(2), repeat=2):
            cell = (reference[i].shape[1] - 5) // 8
            px, py = x * cell + cell // 2, (2 - y) * cell - 2
            ctx.check(np.abs(a[py, px] - reference[i][py, px]).max() <= 16,
                      "wrong colour in a frame", frame=i, cell=(x, y))


def _animation(case, ctx):
    struct, where, result, history = story(case["steps"])
    freq, cell = case["freq"], 20
    shown = list(range(0, len(history), freq))
    artist = SquareGridArtist2D(struct, DiscreteCellArtist(dict(COLOURS)))
    frames = [frame(where, history[i], cell, i) for i in shown]
    everything = [frame(where, h, 16, i) for i, h in enumerate(history)]
    kwargs = {} if freq == 1 else {"draw_freq": freq}
    before = set(os.listdir("."))

    def to_gif(chooser):
        with vpool.controlled(case["cpus"]):
            ResultArtist(artist, result).to_gif("out.gif", cell_size=cell, wait=0.25, **kwargs)
        return None

    def check_gif(_, chooser):
        ctx.equal(set(os.listdir(".")) - before, {"out.gif"}, "other files are left behind")
        gif(ctx, "out.gif", frames, 0.25)
        os.unlink("out.gif")
        ctx.step(len(frames))
        ctx.state((case["steps"], freq, tuple(chooser.path())))
        ctx.trace()

    explore.explore(to_gif, check_gif, ctx=ctx)

    # where no workers can be forked
    platform = sys.platform
    try:
        sys.platform = "win32"
        ResultArtist(artist, result).to_gif("out.gif", cell_size=cell, wait=0.25, **kwargs)
    finally:
        sys.platform = platform
    check_gif(None, explore.Chooser())

    def play(chooser):
        with vpool.controlled(case["cpus"]), notebook() as log:
            ResultArtist(artist, result).jupyter_play(cell_size=16, wait=3)
        return log

    def check_play(log, chooser):
        ctx.equal([what for what, _ in log], ["clear", "display", "wait"] * len(history),
                  "wrong order of frames")
        for i, h in enumerate(history):
            same_picture(ctx, log[3 * i + 1][1], everything[i], "wrong frame is played", step=i)
            ctx.equal(log[3 * i + 2][1], 3, "wrong wait")
        ctx.step(len(history))
        ctx.trace()

    if freq == 1:
        explore.explore(play, check_play, ctx=ctx)
        for i, h in enumerate(history):
            with notebook() as log:
                ResultArtist(artist, result).jupyter_show_step(i, cell_size=16)
            ctx.equal([what for what, _ in log], ["display"], "not one picture is shown")
            same_picture(ctx, log[0][1], everything[i], "wrong step is shown", step=i)
            with notebook() as log:
                ResultArtist(artist, result).jupyter_show_step(i)
            same_picture(ctx, log[0][1], frame(where, h, 20, i), "wrong step is shown", step=i)
        # with the default frequency and duration
        with vpool.controlled(case["cpus"]):
            ResultArtist(artist, result).to_gif("plain.gif")
        gif(ctx, "plain.gif", [frame(where, h, 20, i) for i, h in enumerate(history)], 0.8)
        os.unlink("plain.gif")


def _long(case, ctx):
    """Long animations: more frames than digits."""
    struct, where = grid(2)
    ids = sorted(where)
    now = {s: "A" for s in ids}
    result = SimulationResult(state_of(now))
    history = [dict(now)]
    for i in range(1, case["steps"] + 1):
        chosen = {s: "ABCD"[(i >> 2 * j) % 4] for j, s in enumerate(ids)}
        result.add_step({s: {OCC: p} for s, p in chosen.items() if p != now[s]})
        now = chosen
        history.append(now)
    shown = range(0, len(history), case["freq"])
    frames = [frame(where, history[i], 20, i) for i in shown]
    artist = ResultArtist(SquareGridArtist2D(struct, DiscreteCellArtist(dict(COLOURS))), result)
    for cpus in (1, 3, None):
        with vpool.controlled(cpus) if cpus else contextlib.nullcontext():
            artist.to_gif("long.gif", draw_freq=case["freq"], cell_size=20, wait=0.1)
        gif(ctx, "long.gif", frames, 0.1)
        os.unlink("long.gif")
        ctx.step(len(frames))
    with vpool.controlled(2), notebook() as log:
        artist.jupyter_play(cell_size=20, wait=0)
    shown = [o for what, o in log if what == "display"]
    ctx.equal(len(shown), len(history), "wrong number of frames is played")
    for i, (got, h) in enumerate(zip(shown, history)):
        same_picture(ctx, got, frame(where, h, 20, i), "wrong frame is played", step=i)
    ctx.state((case["steps"], case["freq"]))
    ctx.trace()


def _large(case, ctx):
    """Larger grids, larger cells and longer legends."""
    size = case["size"]
    for order in ("rows", "columns", "reversed"):
        struct, where = grid(size, order)
        ids = sorted(where)
        for i, count in enumerate((2, 5, 11, 32, 101)):
            names = [f"P{j}" for j in range(count)]
            colours = {p: (1 + j * 2 % 255, 250 - j, 40 + j * 3 % 215)
                       for j, p in enumerate(names)}
            phases = {s: names[(k * k + 3 * k) % count] for k, s in enumerate(ids)}
            for cell in (1, 5, 20) if size > 9 else (2, 25, 50):
                drawn(ctx, struct, where, phases, cell, DiscreteCellArtist(colours),
                      colours=colours, shuffled=i % 2)
                drawn(ctx, struct, where, phases, cell, DiscreteCellArtist(colours),
                      colours=colours, label=f"Step {10 ** (i + 1)}")


def _two(case, ctx):
    """Two artists in one program do not get into each other's way, and neither do their
    simulations when they go on."""
    struct, where, result, history = story(2)
    other = {"A": (10, 200, 90), "B": (90, 10, 200), "C": (200, 200, 0), "D": (3, 3, 200)}
    first = ResultArtist(SquareGridArtist2D(struct, DiscreteCellArtist(dict(COLOURS))), result)
    _, _, result2, history2 = story(4)
    second = ResultArtist(SquareGridArtist2D(struct, DiscreteCellArtist(other)), result2)
    for order in itertools.product((0, 1), repeat=3):
        for i in order:
            artist, hist, colours = ((first, history, COLOURS), (second, history2, other))[i]
            with vpool.controlled(2):
                artist.to_gif("out.gif", cell_size=20)
            gif(ctx, "out.gif",
                [frame(where, h, 20, j, colours) for j, h in enumerate(hist)], 0.8)
            ctx.step(len(hist))
        ctx.trace()
    # with real processes, whatever way of starting them is set for the program
    class Own(SquareGridArtist2D):
        pass

    first = ResultArtist(Own(struct, DiscreteCellArtist(dict(COLOURS))), result)
    before = multiprocessing.get_start_method(allow_none=True)
    try:
        for method in ("spawn", "forkserver", "fork"):
            multiprocessing.set_start_method(method, force=True)
            first.to_gif("out.gif", cell_size=20)
            gif(ctx, "out.gif", [frame(where, h, 20, j) for j, h in enumerate(history)], 0.8)
    finally:
        multiprocessing.set_start_method(before, force=True)


def _saved(case, ctx):
    struct, where = grid(2)
    for chosen in itertools.product("ABC", repeat=4):
        phases = dict(zip(sorted(where), chosen))
        artist = SquareGridArtist2D(struct, DiscreteCellArtist(dict(COLOURS)))
        colours = {where[s]: COLOURS[p] for s, p in phases.items()}
        legend = {p: COLOURS[p] for p in chosen}
        returned = artist.save_img(state_of(phases), "saved.png", cell_size=6)
        ctx.equal(returned, "saved.png", "wrong name is returned")
        with Image.open("saved.png") as image:
            same_picture(ctx, image, picture(2, 6, colours, legend), "wrong picture is saved",
                         phases=phases)
        with notebook() as log:
            artist.jupyter_show(state_of(phases), cell_size=5, label="here")
        ctx.equal([what for what, _ in log], ["display"], "not one picture is shown")
        same_picture(ctx, log[0][1], picture(2, 5, colours, legend, "here"),
                     "wrong picture is shown", phases=phases)
        ctx.step(2)
        ctx.trace()
