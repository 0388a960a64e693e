"""Setups put the phases where their parameters say."""

import itertools

import numpy as np

from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState
from pylattica.core.constants import SITE_ID
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import DiscreteGridSetup

from .. import geo

BOUNDS = (
    "sizes 1-9 in 2 and 1-5 in 3 dimensions; particles of all radii 0-5 in steps of 0.25 at "
    "the center, and around every point of a half-integer grid; all interfaces; all "
    "assignments of up to 3 coordinates out of 7 to 2 phases, and of all or all but one of the "
    "cells, given in 7 ways; fixed choices of these for sizes up to 32 and 12"
)
ASSUMPTIONS = [
    "particles are only judged where the distance inside the box and the one across its "
    "periodic boundary lead to the same cells"
]


def cases(tier):
    out = []
    for dim, top in ((2, 9), (3, 5)):
        for size in range(1, top + 1 + 3 * (tier == "thorough")):
            out.append({"kind": "whole", "dim": dim, "size": size})
            out.append({"kind": "center", "dim": dim, "size": size})
        for size in range(1, 5 if dim == 2 else 4):
            out.append({"kind": "particle", "dim": dim, "size": size})
        for size in (1, 2, 3, 5) if dim == 2 else (1, 2, 3):
            out.append({"kind": "coords", "dim": dim, "size": size})
    for dim, size in ((2, 16), (2, 21), (2, 32), (3, 9), (3, 12)):
        out.append({"kind": "large", "dim": dim, "size": size})
    out.append({"kind": "other"})
    return out


def run(case, ctx):
    {"whole": _whole, "center": _center, "particle": _particle, "coords": _coords, "large": _large,
     "other": _other}[case["kind"]](case, ctx)


def setup(dim, *phases):
    given = PhaseSet(list(phases) or ["A", "B"])
    return DiscreteGridSetup(given, dim=dim) if dim == 3 else DiscreteGridSetup(given)


def where(struct):
    return {s: tuple(round(float(x)) for x in struct.site_location(s))
            for s in struct.site_ids}


def verify(ctx, sim, size, dim, want):
    ctx.check(isinstance(sim, Simulation), "not a simulation")
    places = where(sim.structure)
    ctx.equal(sorted(places.values()), sorted(itertools.product(range(size), repeat=dim)),
              "not the grid that was asked for")
    ctx.equal(sorted(sim.state.site_ids()), sorted(places), "not a state of every site")
    ctx.check(all(sim.structure.lattice.periodic), "not periodic")
    for s, at in places.items():
        got = sim.state.get_site_state(s)
        ctx.equal(got.get(SITE_ID), s, "the state of another site")
        may = want(at)
        ctx.check(got.get(DISCRETE_OCCUPANCY) in may, "wrong phase", cell=at, got=got,
                  expected=sorted(may))
        ctx.equal(sim.state_at(at), got, "state_at does not agree")
    ctx.step(len(places))
    ctx.trace()


def _whole(case, ctx):
    dim, size = case["dim"], case["size"]
    made = setup(dim)
    struct = made.build_structure(size)
    for phase in ("A", "B", "something else"):
        state = made.setup_solid_phase(struct, phase)
        verify(ctx, Simulation(state, struct), size, dim, lambda at: {phase})
        ctx.state((dim, size, phase))
    for a, b in (("A", "B"), ("B", "A"), ("x", "x")):
        ctx.at(phases=(a, b))
        sim = made.setup_interface(size, a, b)
        verify(ctx, sim, size, dim, lambda at: {a if at[0] < size // 2 else b})
        ctx.state((dim, size, a, b))


def away(at, center, size=None):
    total = 0
    for x, c in zip(at, center):
        d = abs(x - c)
        if size is not None:
            d = min(d % size, -d % size)
        total += d * d
    return total**0.5


def inside(at, center, radius, size, phase, other):
    out = set()
    for d in (away(at, center), away(at, center, size)):
        # on the surface is outside, and either if only rounding tells
        if d < radius - 1e-9:
            out.add(phase)
        elif d > radius + 1e-9 or float(d) == radius:
            out.add(other)
        else:
            out |= {phase, other}
    return out


def _center(case, ctx):
    dim, size = case["dim"], case["size"]
    made = setup(dim)
    center = (size / 2,) * dim
    for k in range(21):
        radius = k / 4
        for r in {radius, int(radius)} if radius == int(radius) else {radius}:
            ctx.at(radius=r)
            sim = made.setup_particle(size, r, "bulk", "P")
            verify(ctx, sim, size, dim, lambda at: inside(at, center, r, size, "P", "bulk"))
            ctx.state((dim, size, r))


def _particle(case, ctx):
    dim, size = case["dim"], case["size"]
    made = setup(dim)
    struct = made.build_structure(size)
    grid = [k / 2 for k in range(-1, 2 * size + 1)]
    for center in itertools.product(grid, repeat=dim):
        for radius in (0, 0.5, 0.75, 1, 1.25, 1.5, 2):
            ctx.at(center=center, radius=radius)
            # into a state that is not uniform, and holds more
            state = SimulationState()
            for s, at in where(struct).items():
                state.set_site_state(s, {DISCRETE_OCCUPANCY: "xy"[sum(at) % 2], "more": at})
            got = made.add_particle_to_state(struct, state, center, radius, "P")
            verify(
                ctx, Simulation(got, struct), size, dim,
                lambda at: inside(at, center, radius, size, "P", "xy"[sum(at) % 2]),
            )
            for s, at in where(struct).items():
                ctx.equal(got.get_site_state(s).get("more"), at, "other state is lost")
            ctx.state((dim, size, center, radius))


def _coords(case, ctx):
    dim, size = case["dim"], case["size"]
    made = setup(dim)
    pool = list(itertools.product(range(size), repeat=dim))
    pool = pool[:: max(1, len(pool) // 5)][:5] + [pool[-1]]
    pool = list(dict.fromkeys(pool)) + [(size,) * dim]
    for n in range(0, 4):
        for chosen in itertools.permutations(pool, n):
            for phases in itertools.product("PQ", repeat=n):
                coordinates = {}
                for c, p in zip(chosen, phases):
                    coordinates.setdefault(p, []).append(c)
                ctx.at(coordinates=coordinates)
                want = {}
                for p, cs in coordinates.items():
                    for c in cs:
                        want[tuple(x % size for x in c)] = p
                given = {p: list(cs) for p, cs in coordinates.items()}
                sim = made.setup_coords(size, "bulk", given)
                verify(ctx, sim, size, dim, lambda at: {want.get(at, "bulk")})
                ctx.equal(given, coordinates, "the coordinates that were given are changed")
                ctx.state((dim, size, chosen, phases))
            if dim == 3 and size > 2 and n > 2:
                break
    _listed(case, ctx, made)


def _listed(case, ctx, made):
    """All, or all but one, of the cells, in many ways of writing them."""
    dim, size = case["dim"], case["size"]
    places = list(itertools.product(range(size), repeat=dim))
    ways = {
        "tuples": tuple, "lists": list, "floats": lambda c: tuple(map(float, c)),
        "arrays": np.array, "below": lambda c: tuple(x - size for x in c),
        "above": lambda c: tuple(x + (i + 1) * size for i, x in enumerate(c)),
        "mixed": lambda c: tuple(x - size * (i % 2) for i, x in enumerate(c)),
    }
    for name, way in ways.items():
        for left in [None, *places][: 1 + 27]:
            for order in (places, places[::-1]):
                chosen = [c for c in order if c != left]
                for given in (
                    {"P": chosen}, {"P": chosen[::2], "Q": chosen[1::2], "none": []},
                    {"P": chosen + chosen},
                    # the later ones are what counts
                    {"Q": places, "P": chosen}, {"P": places, 0: chosen[:1]},
                ):
                    want = {}
                    for p, cs in given.items():
                        for c in cs:
                            want[c] = p
                    ctx.at(way=name, left=left)
                    sim = made.setup_coords(
                        size, "bulk", {p: [way(c) for c in cs] for p, cs in given.items()})
                    verify(ctx, sim, size, dim, lambda at: {want.get(at, "bulk")})
                    ctx.state((dim, size, left, tuple(want.items())))
                if dim == 3 and size == 3:
                    break


def _large(case, ctx):
    """Larger grids."""
    dim, size = case["dim"], case["size"]
    _whole(case, ctx)
    made = setup(dim)
    for r in (0, 1, 2.5, size / 4, size / 3, size / 2 - 0.5, size / 2):
        ctx.at(radius=r)
        sim = made.setup_particle(size, r, "bulk", "P")
        verify(ctx, sim, size, dim,
               lambda at: inside(at, (size / 2,) * dim, r, size, "P", "bulk"))
    places = list(itertools.product(range(size), repeat=dim))
    for every in (1, 2, 7, 50):
        given, want = {}, {}
        for i, c in enumerate(places[::every]):
            p = f"P{i * i % 12}"
            given.setdefault(p, []).append(c if i % 3 else tuple(x - size for x in c))
            want[c] = p
        ctx.at(every=every)
        sim = made.setup_coords(size, "bulk", given)
        verify(ctx, sim, size, dim, lambda at: {want.get(at, "bulk")})
        ctx.state((dim, size, every))


def _other(case, ctx):
    """A solid phase in structures that are no grids."""
    for name in ("hex60", "fcc", "line"):
        vecs = geo.LATTICES[name]
        struct = PeriodicStructure.build_from(
            Lattice(vecs), [2] * len(vecs), {"A": [(0,) * len(vecs)], "B": [(0.5,) * len(vecs)]},
            frac_coords=True,
        )
        state = setup(2).setup_solid_phase(struct, "P")
        ctx.equal(
            {s: state.get_site_state(s) for s in state.site_ids()},
            {s: {SITE_ID: s, DISCRETE_OCCUPANCY: "P"} for s in struct.site_ids},
            "wrong phases")
        ctx.state(name)
        ctx.step()
        ctx.trace()
