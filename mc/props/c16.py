"""Growth fills background cells with a phase that is most frequent around them, only those,
and the growth setup fills everything."""

import itertools
import math

from pylattica.core import Lattice, PeriodicStructure, SimulationState, SynchronousRunner
from pylattica.core.neighborhood_builders import (
    DistanceNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
)
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY, VACANT
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    GrowthSetup,
    MooreNbHoodBuilder,
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D,
    VonNeumannNbHood2DBuilder,
    VonNeumannNbHood3DBuilder,
)

from .. import explore as ex
from .. import vpool
from ..sut import content
from .c14 import alternatives

BOUNDS = (
    "all 3^9 states of the 3x3 torus and 3^8 of the bounded 2x4 grid over a background and "
    "2 phases, all 2^8 x 2 states with up to 4 phases around a cell of a 4x4 torus, with 4 "
    "neighborhoods and 8 phase sets; runs of up to 6 steps; all outcomes of the first 2 random draws of the "
    "growth setup (3 in the thorough tier) on grids of up to 9 (16) cells, all outcomes of "
    "either one of them on up to 27 cells, and 6 fixed ones on up to 15x15 and 7x7x7 cells; 12 "
    "runs of 4-15 steps with up to 40 phases on 3 grids of 121-210 cells"
)
ASSUMPTIONS = [
    "if several phases are equally frequent, the cell may get any of them",
    "the growth setup is used with neighborhoods that connect all cells",
]

AROUND = [v for v in itertools.product((-1, 0, 1), repeat=2) if any(v)]
CROSS = [v for v in AROUND if sum(map(abs, v)) == 1]

BUILDERS = {
    "default": (None, [AROUND]),
    "moore": (lambda: MooreNbHoodBuilder(1), [AROUND]),
    "neumann": (VonNeumannNbHood2DBuilder, [CROSS]),
    "distance": (lambda: DistanceNeighborhoodBuilder(1.1), [CROSS]),
    "class": (lambda: SiteClassNeighborhoodBuilder({"A": MooreNbHoodBuilder()}), [AROUND]),
    "hexagonal": (PseudoHexagonalNeighborhoodBuilder2D, alternatives("hexagonal", 2)),
}


def cases(tier):
    out = []
    for nb in BUILDERS:
        for cells, periodic in (((3, 3), True), ((2, 4), False)):
            n = math.prod(cells)
            for background in (VACANT, "bg"):
                if nb == "hexagonal" and (tier == "quick" or n == 9):
                    if background == "bg" or n == 9:
                        continue
                for part in range(3):
                    out.append({"kind": "all", "nb": nb, "cells": cells,
                                "periodic": periodic, "background": background,
                                "part": part})
        out.append({"kind": "many", "nb": nb})
        if nb != "hexagonal":
            out.append({"kind": "set", "nb": nb})
    for nb in BUILDERS:
        if nb != "hexagonal":
            out += [{"kind": "large", "nb": nb, "cells": c, "periodic": p}
                    for c, p in (((15, 14), True), (((4, 33)), False), ((11, 11), False))]
    for dim in (2, 3):
        for size in range(1, 5 if dim == 2 else 4):
            for nuclei in (1, 2, 3):
                if nuclei > size**dim:
                    continue
                for nb in ("moore", "neumann", "hexagonal"):
                    out.append({"kind": "grow", "dim": dim, "size": size, "nuclei": nuclei,
                                "nb": nb})
        for size in (5, 6, 7, 8, 15) if dim == 2 else (4, 5, 7):
            for nb in ("moore", "neumann"):
                out.append({"kind": "big", "dim": dim, "size": size, "nb": nb})
    return out


def run(case, ctx):
    {"all": _all, "many": _many, "set": _set, "grow": _grow, "large": _large, "big": _big}[case["kind"]](case, ctx)


def layout(cells, periodic):
    struct = PeriodicStructure.build_from(
        Lattice([(1, 0), (0, 1)], periodic), list(cells), {"A": [(0, 0)]}
    )
    return struct, {s: tuple(round(float(x)) for x in struct.site_location(s))
                    for s in struct.site_ids}


def neighbors(cells, periodic, offsets):
    out = {}
    for at in itertools.product(*map(range, cells)):
        nbs = set()
        for v in offsets:
            to = tuple(x + d for x, d in zip(at, v))
            if periodic:
                to = tuple(x % n for x, n in zip(to, cells))
            if all(0 <= x < n for x, n in zip(to, cells)) and to != at:
                nbs.add(to)
        out[at] = nbs
    return out


def allowed(state, at, tables, background):
    """The phases that a cell may have after one step."""
    if state[at] != background:
        return {state[at]}
    out = set()
    for nbs in tables:
        counts = {}
        for p in nbs[at]:
            if state[p] != background:
                counts[state[p]] = counts.get(state[p], 0) + 1
        if counts:
            top = max(counts.values())
            out |= {p for p, c in counts.items() if c == top}
        else:
            out.add(background)
    return out


def state_of(phases, where):
    state = SimulationState()
    for s, at in where.items():
        state.set_site_state(s, {DISCRETE_OCCUPANCY: phases[at]})
    return state


def phases_of(state, where):
    return {at: state.get_site_state(s)[DISCRETE_OCCUPANCY] for s, at in where.items()}


def make(nb, struct, background, phases=("A", "B")):
    kwargs = {}
    if BUILDERS[nb][0] is not None:
        kwargs["nb_builder"] = BUILDERS[nb][0]()
    if background != VACANT:
        kwargs["background_phase"] = background
    return GrowthController(PhaseSet([background, *phases]), struct, **kwargs)


def one_step(ctx, controller, state, phases, where, tables, background):
    for s, at in where.items():
        may = allowed(phases, at, tables, background)
        update = controller.get_state_update(s, state)
        new = {**state.get_site_state(s), **(update or {})}[DISCRETE_OCCUPANCY]
        if new not in may:
            ctx.fail("a cell gets the wrong phase", cell=at, got=new,
                     expected=sorted(map(str, may)), phases={str(k): v for k, v in
                                                            phases.items()})
        # nothing but the phase of the cell itself changes
        ctx.check(not update or set(update) <= {DISCRETE_OCCUPANCY}, "other updates",
                  update=update)
    ctx.step(len(where))


def _all(case, ctx):
    cells, periodic = tuple(case["cells"]), case["periodic"]
    struct, where = layout(cells, periodic)
    tables = [neighbors(cells, periodic, o) for o in BUILDERS[case["nb"]][1]]
    background = case["background"]
    # vacant is a phase like any other unless it is the background
    others = ("A", "B") if background == VACANT else ("A", VACANT)
    controller = make(case["nb"], struct, background, others)
    controller.pre_run(SimulationState.from_struct(struct))
    places = sorted(where.values())
    options = (background, *others)
    runs = 0
    for rest in itertools.product(options, repeat=len(places) - 1):
        phases = dict(zip(places, (options[case["part"]],) + rest))
        state = state_of(phases, where)
        before = content(state)
        if case["nb"] == "hexagonal":
            # under each outcome of the choices of the neighborhoods
            for s, at in where.items():
                if phases[at] == background:
                    may = allowed(phases, at, tables, background)
                    got = set()
                    ex.explore(
                        lambda _, s=s: controller.get_state_update(s, state),
                        lambda update, _: got.add(
                            (update or {}).get(DISCRETE_OCCUPANCY, background)),
                    )
                    ctx.check(got <= may, "a cell gets the wrong phase", cell=at,
                              got=sorted(got), expected=sorted(may))
                    ctx.step()
        else:
            one_step(ctx, controller, state, phases, where, tables, background)
        runs += 1
        if runs % 97 == 0 and case["nb"] != "hexagonal":
            follow(ctx, make(case["nb"], struct, background, others), phases, where, tables,
                   background, 6)
        if content(state) != before:
            ctx.fail("the state was changed")
        ctx.state((cells, background, tuple(phases.values())))
    ctx.trace()


def follow(ctx, controller, phases, where, tables, background, steps):
    """A run, each step of which has to be one that is allowed."""
    result = SynchronousRunner().run(state_of(phases, where), controller, steps)
    now = phases
    for i in range(1, steps + 1):
        new = phases_of(result.get_step(i), where)
        for at in now:
            may = allowed(now, at, tables, background)
            ctx.check(new[at] in may, "a cell gets the wrong phase in a run", cell=at,
                      step=i, got=new[at], expected=sorted(map(str, may)))
        now = new
    ctx.trace()
    ctx.step(steps)


def _large(case, ctx):
    """Large grids with many phases."""
    cells, periodic = tuple(case["cells"]), case["periodic"]
    struct, where = layout(cells, periodic)
    tables = [neighbors(cells, periodic, o) for o in BUILDERS[case["nb"]][1]]
    for count in (2, 5, 11, 40):
        names = [f"P{i}" for i in range(count)]
        for every in (3, 7, 30):
            phases = {
                (x, y): names[(x * 7 + y * y * 3 + x * y) % count]
                if (x * 5 + y * 11 + x * x * y) % every == 0 else "bg"
                for x, y in where.values()
            }
            ctx.at(phases=count, every=every)
            follow(ctx, make(case["nb"], struct, "bg", names), phases, where, tables, "bg",
                   max(4, every // 2))
            ctx.state((cells, count, every))


def _set(case, ctx):
    """Whatever the phase set of the controller holds, and in which order."""
    cells = (3, 3)
    struct, where = layout(cells, True)
    tables = [neighbors(cells, True, o) for o in BUILDERS[case["nb"]][1]]
    sets = [(), ("bg",), ("A",), ("A", "bg"), ("bg", "B"), ("B", "A", "bg"), ("bg", "x"),
            ("bg", "A", "B", "C", "D", "E", "F", "G")]
    for given in sets:
        kwargs = {}
        if BUILDERS[case["nb"]][0] is not None:
            kwargs["nb_builder"] = BUILDERS[case["nb"]][0]()
        controller = GrowthController(PhaseSet(list(given)), struct, background_phase="bg",
                                      **kwargs)
        places = sorted(where.values())
        for rest in itertools.product(("bg", "A", "B"), repeat=6):
            phases = dict(zip(places, ("bg", "bg", "B", *rest)))
            ctx.at(phase_set=given)
            one_step(ctx, controller, state_of(phases, where), phases, where, tables, "bg")
            ctx.state((given, rest))
        for rest in itertools.product(("bg", "A", "B"), repeat=3):
            phases = dict(zip(places, ("bg",) * 6 + rest))
            follow(ctx, controller, phases, where, tables, "bg", 3)
    ctx.trace()


def _many(case, ctx):
    """A background cell with up to four phases around it, and an occupied one."""
    if case["nb"] == "hexagonal":
        ctx.state("none")
        ctx.step()
        ctx.trace()
        return
    cells = (4, 4)
    struct, where = layout(cells, True)
    site = {at: s for s, at in where.items()}
    tables = [neighbors(cells, True, o) for o in BUILDERS[case["nb"]][1]]
    background = "bg"
    controller = make(case["nb"], struct, background, ("A", VACANT, "C", "D"))
    ring = [(1 + x, 1 + y) for x, y in AROUND]
    for own in (background, "A"):
        for around in itertools.product((background, "A", VACANT, "C"), repeat=8):
            if case["nb"] in ("neumann", "distance") and any(
                p != "C" for q, p in zip(AROUND, around) if q not in CROSS
            ):
                continue
            phases = {at: background for at in site}
            phases[1, 1] = own
            phases.update(zip(ring, around))
            if around[0] == "C":
                phases = {at: "D" if p == "C" and at == ring[0] else p
                          for at, p in phases.items()}
            state = state_of(phases, where)
            may = allowed(phases, (1, 1), tables, background)
            update = controller.get_state_update(site[1, 1], state)
            new = {DISCRETE_OCCUPANCY: own, **(update or {})}[DISCRETE_OCCUPANCY]
            ctx.check(new in may, "a cell gets the wrong phase", got=new, around=around,
                      expected=sorted(may))
            ctx.step()
            ctx.state((own, around))
    ctx.trace()


GROW = {
    (2, "moore"): (lambda: MooreNbHoodBuilder(1), [AROUND]),
    (2, "neumann"): (VonNeumannNbHood2DBuilder, [CROSS]),
    (2, "hexagonal"): (PseudoHexagonalNeighborhoodBuilder2D, None),
    (3, "moore"): (lambda: MooreNbHoodBuilder(1, dim=3),
                   [[v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]]),
    (3, "neumann"): (lambda: VonNeumannNbHood3DBuilder(1),
                     [[v for v in itertools.product((-1, 0, 1), repeat=3)
                       if sum(map(abs, v)) == 1]]),
    (3, "hexagonal"): (PseudoHexagonalNeighborhoodBuilder3D, None),
}


def grow(case, nuclei, ratios, buffer):
    with vpool.controlled(2):
        return GrowthSetup(PhaseSet(["bg", *ratios]), dim=case["dim"]).grow(
            case["size"],
            num_sites_desired=nuclei,
            background_spec="bg",
            nuc_amts=ratios,
            nb_builder=GROW[case["dim"], case["nb"]][0](),
            buffer=buffer,
        )


def distances(places, table, start):
    out = {start: 0}
    front = [start]
    while front:
        new = []
        for p in front:
            for q in table[p]:
                if q not in out:
                    out[q] = out[p] + 1
                    new.append(q)
        front = new
    return out


def verify_grown(ctx, case, sim, ratios, nuclei):
    dim, size = case["dim"], case["size"]
    places = sorted(itertools.product(range(size), repeat=dim))
    where = {s: tuple(round(float(x)) for x in sim.structure.site_location(s))
             for s in sim.structure.site_ids}
    ctx.equal(sorted(where.values()), places, "not the grid that was asked for")
    final = phases_of(sim.state, where)
    ctx.check(all(p in ratios for p in final.values()), "not filled with the phases",
              phases=sorted(set(map(str, final.values()))))
    if nuclei == 1:
        ctx.check(len(set(final.values())) == 1, "more phases than nuclei")
    offsets = GROW[dim, case["nb"]][1]
    # each cell has the phase of one of the nuclei closest to it, for some nuclei
    if offsets is None or len(places) > 27 or nuclei > 3:
        return final
    table = neighbors((size,) * dim, True, offsets[0])
    away = {p: distances(places, table, p) for p in places}
    for chosen in itertools.combinations(places, nuclei):
        for at in places:
            least = min(away[c][at] for c in chosen)
            if final[at] not in {final[c] for c in chosen if away[c][at] == least}:
                break
        else:
            return final
    ctx.fail("no placement of nuclei grows into this state",
             phases={str(k): v for k, v in final.items()})


def _grow(case, ctx):
    n = case["nuclei"]
    for ratios in ({"A": 1}, {"A": 0.5, "B": 0.5}):
        finals = set()

        def check(sim, chooser, ratios=ratios, finals=finals):
            final = verify_grown(ctx, case, sim, ratios, n)
            finals.add(tuple(sorted(final.items())))
            ctx.outcome((case["dim"], case["size"], tuple(sorted(final.items()))))
            ctx.trace()
            ctx.step()

        ex.explore(
            lambda _, ratios=ratios: grow(case, n, ratios, None),
            check, depth=2 if ctx.quick else 3,
            deviations=None if case["size"] ** case["dim"] <= (9 if ctx.quick else 16) else 1,
            ctx=ctx, only={"randbelow", "numpy", "random"},
        )
        ctx.state((case["dim"], case["size"], n, case["nb"], tuple(ratios)))
        ctx.outcome(frozenset(finals))


def _big(case, ctx):
    for seed in range(6):
        for nuclei, ratios, buffer in (
            (1, {"A": 1}, 2), (2, {"A": 1, "B": 1}, 1), (3, {"A": 2, "B": 1}, 1),
        ):
            start = tuple((case["size"] ** case["dim"], (7 * seed + 5 * i) %
                           case["size"] ** case["dim"]) for i in range(1))
            chooser = ex.Chooser(start, depth=1)
            ctx.at(seed=seed, nuclei=nuclei)
            sim = ex.run_with(chooser, lambda _: grow(case, nuclei, ratios, buffer))
            verify_grown(ctx, case, sim, ratios, nuclei)
            ctx.state((case["dim"], case["size"], case["nb"], seed, nuclei))
            ctx.step()
            ctx.trace()
