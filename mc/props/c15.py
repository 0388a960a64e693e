"""Game of life controllers apply the rule that their variant denotes."""

import itertools

from pylattica.core import Lattice, PeriodicStructure, SimulationState, SynchronousRunner
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models import game_of_life
from pylattica.models.game_of_life import GameOfLifeController
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

from .. import vpool
from ..sut import content

BOUNDS = (
    "all 512 states of the 3x3 torus under 20 variants, all 65536 states of the 4x4 torus "
    "(8 variants in the thorough tier, Life in the quick one), all 512 patterns amid 5x5 "
    "and 4x6 tori and grids with boundaries, for 1-4 steps; all 512 sets of counts to be "
    "born at, and to survive at (all 2^18 variants in the thorough tier) on every count; grids to which cells are "
    "added between the runs of one controller; 4 fixed patterns each "
    "on 4 grids of 120-400 cells under 6 variants, for up to 90 steps"
)
ASSUMPTIONS = ["grids have at least 3 cells along each periodic axis"]

VARIANTS = [
    "B3/S23", "B4678/S35678", "B35678/S5678", "B2/S", "B3/S12345", "B36/S23",
    "B1357/S1357", "B368/S245", "B3678/S34678", "B34/S34", "B1/S012345678", "B/S", "B/S4",
    "B0/S", "B012345678/S012345678", "B08/S08", "B8/S0", "B5/S1", "B7/S6", "B0123478/S01234678",
]
NAMED = {"Life": "B3/S23", "Anneal": "B4678/S35678", "Diamoeba": "B35678/S5678",
         "Seeds": "B2/S", "Maze": "B3/S12345"}


def cases(tier):
    out = []
    for v in VARIANTS:
        out.append({"kind": "all", "rows": 3, "cols": 3, "variant": v, "part": 0, "of": 1})
    for v in VARIANTS[:1] if tier == "quick" else VARIANTS[:8]:
        for part in range(16):
            out.append({"kind": "all", "rows": 4, "cols": 4, "variant": v, "part": part,
                        "of": 16})
    for v in VARIANTS[:6] if tier == "quick" else VARIANTS:
        for rows, cols, periodic in ((5, 5, True), (4, 6, True), (4, 5, False), (5, 3, False)):
            for part in range(2):
                out.append({"kind": "amid", "rows": rows, "cols": cols, "variant": v,
                            "periodic": periodic, "part": part})
    if tier == "quick":
        for part in range(8):
            out.append({"kind": "counts", "part": part, "of": 8, "all": False})
    else:
        for part in range(256):
            out.append({"kind": "counts", "part": part, "of": 256, "all": True})
    for rows, cols, periodic in ((20, 20, True), (12, 31, True), (26, 9, False), (40, 3, True)):
        for fill in range(4):
            out.append({"kind": "large", "rows": rows, "cols": cols, "periodic": periodic,
                        "fill": fill})
    out.append({"kind": "ways"})
    for first in range(9):
        out.append({"kind": "holes", "first": first})
    return out


def parse(variant):
    b, s = variant.split("/")
    return {int(c) for c in b[1:]}, {int(c) for c in s[1:]}


def after(cells, variant, periodic):
    """cells: (x, y) -> alive"""
    born, survive = parse(variant)
    w = max(x for x, _ in cells) + 1
    h = max(y for _, y in cells) + 1
    out = {}
    for x, y in cells:
        n = 0
        for dx, dy in itertools.product((-1, 0, 1), repeat=2):
            if (dx, dy) == (0, 0):
                continue
            at = ((x + dx) % w, (y + dy) % h) if periodic else (x + dx, y + dy)
            n += cells.get(at, False)
        out[x, y] = n in (survive if cells[x, y] else born)
    return out


def grid(rows, cols, periodic):
    """-> the structure, and the place of each site"""
    if periodic and rows == cols:
        struct = SimpleSquare2DStructureBuilder().build(rows)
    else:
        struct = PeriodicStructure.build_from(
            Lattice([(1, 0), (0, 1)], periodic), [rows, cols], {"A": [(0, 0)]}
        )
    where = {s: tuple(round(float(x)) for x in struct.site_location(s))
             for s in struct.site_ids}
    return struct, where


def state_of(cells, where):
    state = SimulationState()
    for s, at in where.items():
        state.set_site_state(s, {DISCRETE_OCCUPANCY: "alive" if cells[at] else "dead"})
    return state


def alive(state, where):
    names = {"alive": True, "dead": False}
    return {at: names[state.get_site_state(s)[DISCRETE_OCCUPANCY]]
            for s, at in where.items()}


def run(case, ctx):
    if case["kind"] == "counts":
        return _counts(case, ctx)
    if case["kind"] == "large":
        return _large(case, ctx)
    if case["kind"] == "holes":
        return _holes(case, ctx)
    if case["kind"] == "ways":
        return _ways(ctx)
    rows, cols, variant = case["rows"], case["cols"], case["variant"]
    periodic = case.get("periodic", True)
    struct, where = grid(rows, cols, periodic)
    places = sorted(where.values())
    controller = GameOfLifeController(struct, variant)
    if case["kind"] == "all":
        n = len(places)
        numbers = range(case["part"], 2**n, case["of"])
        starts = ({p: bool(k >> i & 1) for i, p in enumerate(places)} for k in numbers)
    else:
        middle = [(x, y) for x in (1, 2, 3) for y in (0, 1, 2)] if periodic else [
            (x, y) for x in (0, 1, 2) for y in (0, 1, 2)]
        middle = [p for p in middle if p in places]
        starts = (
            {p: bool(k >> middle.index(p) & 1) if p in middle else False for p in places}
            for k in range(case["part"], 2 ** len(middle), 2)
        )
    for k, cells in enumerate(starts):
        ctx.at(alive=sorted(p for p in cells if cells[p]))
        state = state_of(cells, where)
        before = content(state)
        # one step, of the controller itself
        want = after(cells, variant, periodic)
        if k == 0 or case["kind"] == "all":
            if k == 0:
                controller.pre_run(state)
            for s, at in where.items():
                got = controller.get_state_update(s, state)
                new = {**state.get_site_state(s), **(got or {})}[DISCRETE_OCCUPANCY]
                if new != ("alive" if want[at] else "dead"):
                    ctx.fail("wrong fate of a cell", cell=at, got=new)
            ctx.step(len(where))
        # several steps, by the runner
        if k % 16 == 0 or (case["kind"] == "amid" and k % 4 == 0) or len(places) == 9:
            steps = 4 if k % 32 == 0 else 1 if case["kind"] == "all" else 2
            result = SynchronousRunner().run(
                state, GameOfLifeController(struct, variant), steps)
            now = cells
            for i in range(steps + 1):
                got = alive(result.get_step(i), where)
                if got != now:
                    ctx.fail("wrong generation", step=i,
                             wrong=sorted(p for p in now if now[p] != got[p]))
                now = after(now, variant, periodic)
            ctx.step(steps)
            ctx.trace()
        ctx.equal(content(state), before, "the state was changed")
        ctx.state((rows, cols, periodic, tuple(cells.values())))
        ctx.outcome((variant, tuple(want.values())))


GLIDER = {(1, 0), (2, 1), (0, 2), (1, 2), (2, 2)}


def _large(case, ctx):
    """Larger grids for longer."""
    struct, where = grid(case["rows"], case["cols"], case["periodic"])
    for k, variant in enumerate(VARIANTS[:6]):
        fill = case["fill"]
        cells = {
            (x, y): (x * x * 7 + y * 13 + x * y * (fill + 1)) % (3 + fill) < 1 + fill % 2
            for x, y in where.values()
        }
        steps = 12
        if fill == 3:
            cells = {p: p in GLIDER for p in cells}
            steps = 90 if k == 0 else 6
        ctx.at(variant=variant)
        results = [SynchronousRunner().run(
            state_of(cells, where), GameOfLifeController(struct, variant), steps)]
        if k == 1:
            with vpool.controlled(3):
                results.append(SynchronousRunner(parallel=True, workers=3).run(
                    state_of(cells, where), GameOfLifeController(struct, variant), steps))
        now = cells
        for i in range(steps + 1):
            for result in results:
                got = alive(result.get_step(i), where)
                if got != now:
                    ctx.fail("wrong generation", step=i,
                             wrong=sorted(p for p in now if now[p] != got[p])[:9])
            now = after(now, variant, case["periodic"])
        ctx.step(steps)
        ctx.state((case["rows"], case["cols"], case["periodic"], variant, fill))
        ctx.trace()


def _holes(case, ctx):
    """A controller of a grid whose cells are added between its runs, in various orders."""
    for periodic in (True, False):
        for second in range(9):
            struct = PeriodicStructure(
                Lattice([(1, 0), (0, 1)], periodic).get_scaled_lattice([3, 3]))
            controller = GameOfLifeController(struct, "B23/S123")
            places = [(x, y) for x in range(3) for y in range(3)]
            order = [p for i, p in enumerate(places) if i not in (case["first"], second)]
            order += [p for p in places if p not in order]
            where = {}
            for n, at in enumerate(order, 1):
                where[struct.add_site("A", at)] = at
                if n not in (3, 6, 8, 9):
                    continue
                for k in range(4):
                    cells = {p: (3 * i + k * p[0] + p[1] * second) % (2 + k % 2) == 0
                             for i, p in enumerate(order[:n])}
                    ctx.at(cells=order[:n], alive=[p for p in cells if cells[p]])
                    result = SynchronousRunner().run(state_of(cells, where), controller, 2)
                    now = cells
                    for i in range(3):
                        ctx.equal(alive(result.get_step(i), where), now,
                                  "wrong generation", step=i)
                        now = fates(now, "B23/S123", periodic)
                    ctx.step(2)
                    ctx.state((periodic, tuple(cells.items())))
                    ctx.trace()


def fates(cells, variant, periodic):
    """Like after(), in a 3x3 box of which some cells may be missing."""
    full = {(x, y): cells.get((x, y), False) for x in range(3) for y in range(3)}
    now = after(full, variant, periodic)
    return {p: now[p] for p in cells}


def _counts(case, ctx):
    """Every number of living neighbors of a living and of a dead cell."""
    struct, where = grid(3, 3, True)
    site = {at: s for s, at in where.items()}
    around = [p for p in site if p != (1, 1)]
    states = []
    for living in (False, True):
        for n in range(9):
            # which of the neighbors live varies
            chosen = {around[(3 * i + n) % 8] for i in range(n)}
            states.append(
                (living, n, state_of({p: p in chosen or (p == (1, 1) and living)
                                      for p in site}, where)))
    subsets = ["".join(str(d) for d in range(9) if k >> d & 1) for k in range(512)]
    if case["all"]:
        variants = ((b, s) for i, b in enumerate(subsets) for s in subsets
                    if i % case["of"] == case["part"] % case["of"])
    else:
        variants = [(b, subsets[(i * 37 + 11) % 512]) for i, b in enumerate(subsets)]
        variants += [(subsets[(i * 53 + 5) % 512], s) for i, s in enumerate(subsets)]
        variants = variants[case["part"]:: case["of"]]
    for b, s in variants:
        variant = f"B{b}/S{s}"
        ctx.at(variant=variant)
        controller = GameOfLifeController(struct, variant)
        controller.pre_run(states[0][2])
        for living, n, state in states:
            got = controller.get_state_update(site[1, 1], state)
            new = {**state.get_site_state(site[1, 1]), **(got or {})}[DISCRETE_OCCUPANCY]
            want = str(n) in (s if living else b)
            if new != ("alive" if want else "dead"):
                ctx.fail("wrong fate of a cell", variant=variant, living=living,
                         neighbors=n, got=new)
        ctx.state(variant)
        ctx.step(18)
        ctx.trace()


def _ways(ctx):
    """The ways of choosing a variant, and of running."""
    for name, text in NAMED.items():
        ctx.equal(getattr(game_of_life, name), text, f"{name} is another rule")
    struct, where = grid(4, 4, True)
    places = sorted(where.values())
    starts = [
        {p: (5 * p[0] + 3 * p[1] + p[0] * p[1] + k) % 4 < 2 for p in places}
        for k in range(4)
    ] + [{p: p in ((1, 0), (1, 1), (1, 2)) for p in places}]
    makes = [("default", "B3/S23", GameOfLifeController)]
    for v in VARIANTS:
        own = type("Own", (GameOfLifeController,), {"variant": v})
        makes.append(("argument", v, lambda st, v=v: GameOfLifeController(st, v)))
        makes.append(("keyword", v, lambda st, v=v: GameOfLifeController(st, variant=v)))
        makes.append(("class", v, own))
    # the controllers are made first, to see that none affects another
    made = [(how, v, make(struct), make) for how, v, make in makes]
    for how, v, controller, make in made:
        for cells in starts:
            ctx.at(how=how, variant=v)
            result = SynchronousRunner().run(state_of(cells, where), controller, 3)
            now = cells
            for i in range(4):
                ctx.equal(alive(result.get_step(i), where), now, "wrong generation", step=i)
                now = after(now, v, True)
            # the output is the last generation
            ctx.step(3)
            ctx.trace()
        if v in VARIANTS[:4]:
            with vpool.controlled(3):
                result = SynchronousRunner(parallel=True).run(
                    state_of(starts[0], where), make(struct), 3)
            now = starts[0]
            for i in range(4):
                ctx.equal(alive(result.get_step(i), where), now,
                          "wrong generation in parallel", step=i)
                now = after(now, v, True)
        ctx.state((how, v))
