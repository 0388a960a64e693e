"""Saving and loading a simulation, structure or lattice keeps everything about it."""

import copy
import itertools
import json
import os

import numpy as np

from pylattica.core import (
    DistanceNeighborhoodBuilder,
    Lattice,
    MotifNeighborhoodBuilder,
    PeriodicStructure,
    Simulation,
    SimulationState,
)
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID

from .. import geo
from ..sut import content
from .c10 import lookups, match, motif_for, _too_close

BOUNDS = (
    "25 lattices in 1-4 dimensions, every choice of periodic axes, 5 motifs, 1-3 sizes; as "
    "dictionaries, JSON text (also with sorted keys) and files, loaded once and twice, with "
    "the sites saved in every order (24 orders of up to 4 sites, reversed and by text "
    "otherwise); all subsets of up to 4 sites with a state; all pairs of 12 site classes; 5 "
    "structures of 153-840 sites"
)
ASSUMPTIONS = ["states and site classes are values that JSON can represent"]

SIZES = {1: [(1,), (11,)], 2: [(1, 1), (4, 3)], 3: [(1, 1, 1), (2, 2, 3)], 4: [(1, 2, 1, 2)]}
MOTIFS = ("center", "two", "thirds", "outside", "edge")


def cases(tier):
    out = []
    for name in geo.LATTICES:
        dim = geo.DIM[name]
        for periodic in geo.patterns(dim):
            for motif in MOTIFS:
                if tier == "quick" and dim >= 3 and not all(periodic):
                    if motif in ("center", "two"):
                        continue
                out.append({"kind": "simulation", "lattice": name, "periodic": periodic,
                            "motif": motif})
    out.append({"kind": "classes"})
    for name, size in (("line", [230]), ("square", [21, 20]), ("graphene", [17, 9]),
                       ("triclinic", [7, 5, 6]), ("cubic", [11, 2, 10])):
        out.append({"kind": "large", "lattice": name, "size": size})
    for name in ("square", "graphene", "triclinic"):
        out.append({"kind": "orders", "lattice": name})
        out.append({"kind": "states", "lattice": name})
    return out


def by_dict(x):
    return type(x).from_dict(copy.deepcopy(x.as_dict()))


def directly(x):
    return type(x).from_dict(x.as_dict())


def by_json(x):
    return type(x).from_dict(json.loads(json.dumps(x.as_dict())))


def by_sorted_json(x):
    return type(x).from_dict(json.loads(json.dumps(x.as_dict(), sort_keys=True)))


def by_file(x):
    path = os.path.abspath("simulation.json")
    if os.path.exists(path):
        os.unlink(path)
    x.to_file(path)
    return type(x).from_file(path)


def reordered(x, order):
    d = json.loads(json.dumps(x.as_dict()))
    sites = d["structure"]["_sites"]
    d["structure"]["_sites"] = {k: sites[k] for k in order(list(sites))}
    state = d["state"]["state"]["SITES"]
    d["state"]["state"]["SITES"] = {k: state[k] for k in order(list(state))}
    return type(x).from_dict(d)


WAYS = {
    "directly": directly,
    "dictionary": by_dict,
    "json": by_json,
    "sorted json": by_sorted_json,
    "file": by_file,
    "reversed": lambda x: reordered(x, lambda ks: ks[::-1]),
    "rotated": lambda x: reordered(x, lambda ks: ks[len(ks) // 2:] + ks[: len(ks) // 2]),
}


def run(case, ctx):
    if case["kind"] == "orders":
        return _orders(case, ctx)
    if case["kind"] == "states":
        return _states(case, ctx)
    if case["kind"] == "large":
        return _large(case, ctx)
    if case["kind"] == "classes":
        return _classes(case, ctx)
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    periodic = tuple(case["periodic"])
    motif = motif_for(case["motif"], dim, vecs, True)
    as_dict = motif if isinstance(motif, dict) else {"A": motif}
    for size in SIZES[dim]:
        want = geo.tile(vecs, size, as_dict, True)
        big = geo.scaled(vecs, size)
        if _too_close(want, big, periodic):
            ctx.count("skipped_because_sites_coincide")
            continue
        struct = PeriodicStructure.build_from(
            Lattice(vecs, periodic), list(size), motif, frac_coords=True
        )
        sim = Simulation(make_state(struct), struct)
        for way in WAYS:
            if ctx.quick and dim >= 3 and way in ("dictionary", "json"):
                continue
            ctx.at(way=way, size=size)
            loaded = WAYS[way](sim)
            same(ctx, sim, loaded, want, big, periodic, full=way in ("sorted json", "file"))
            again = by_json(loaded)
            same(ctx, sim, again, want, big, periodic, full=False)
            independent(ctx, sim, loaded, vecs)
            ctx.state((case["lattice"], periodic, case["motif"], size, way))
            ctx.step(2)
            ctx.trace()
        for way in (directly, by_json):
            loaded = way(struct)
            ctx.equal(layout(loaded), layout(struct), "the structure is not restored")
            lattice = way(struct.lattice)
            ctx.check(np.array_equal(lattice.vecs, struct.lattice.vecs)
                      and tuple(lattice.periodic) == tuple(struct.lattice.periodic),
                      "the lattice is not restored")
    ctx.sample({"size": size})


def make_state(struct):
    state = SimulationState.from_struct(struct)
    for sid in struct.site_ids:
        if sid % 3 != 2:
            state.set_site_state(sid, {"v": sid * sid - 5, "n": {"k": [sid, None]}})
    state.set_general_state({"time": 0.25})
    return state


def layout(struct):
    return [
        (s[SITE_ID], s[SITE_CLASS], tuple(np.asarray(s[LOCATION]).tolist()))
        for s in sorted(struct.sites(), key=lambda s: s[SITE_ID])
    ]


def same(ctx, sim, loaded, want, vecs, periodic, full):
    struct, other = sim.structure, loaded.structure
    ctx.check(type(loaded) is Simulation and type(other) is PeriodicStructure,
              "something else was loaded")
    ctx.equal(layout(other), layout(struct), "sites are not restored")
    ctx.equal(sorted(other.site_ids), sorted(struct.site_ids), "site ids are not restored")
    ctx.equal(content(loaded.state), content(sim.state), "state is not restored")
    ctx.equal(np.asarray(other.lattice.vecs).tolist(),
              np.asarray(struct.lattice.vecs).tolist(), "lattice vectors are not restored")
    ctx.equal(tuple(other.lattice.periodic), tuple(struct.lattice.periodic),
              "periodicity is not restored")
    ctx.equal(other.dim, struct.dim, "dimension is not restored")
    exact = match(ctx, other, want, vecs, periodic)
    shifts = [(0,) * len(vecs)]
    for i, p in enumerate(periodic):
        if p:
            shifts.append(tuple((-1 if i % 2 else 1) * (i == j) for j in range(len(vecs))))
    for sid, pos in exact.items():
        for shift in shifts:
            at = tuple(x + c for x, c in zip(pos, geo.cart(shift, vecs)))
            got = loaded.state_at(at)
            if got != sim.state.get_site_state(sid) or sim.state_at(at) != got:
                ctx.fail("the state at a location is not restored", at=at, got=got,
                         original=sim.state_at(at))
        at = tuple(x + 0.004 for x in pos)
        if not geo.find(at, exact, vecs, periodic, 0.0016):
            ctx.check(loaded.state_at(at) is None, "a state where there is no site", at=at)
    if full:
        if len(exact) <= 8:
            lookups(ctx, other, exact, vecs, periodic, False)
        ids = struct.site_ids[:8]
        for a, b in itertools.product(ids, repeat=2):
            ctx.equal(
                other.lattice.cartesian_periodic_distance(
                    other.site_location(a), other.site_location(b)),
                struct.lattice.cartesian_periodic_distance(
                    struct.site_location(a), struct.site_location(b)),
                "distances are not restored", sites=(a, b))
        if len(ids) > 1 and len(vecs) < 3:
            offset = [y - x for x, y in zip(struct.site_location(ids[0]),
                                            struct.site_location(ids[1]))]
            for builder in (MotifNeighborhoodBuilder([offset]),
                            DistanceNeighborhoodBuilder(1.3)):
                a, b = builder.get(struct), builder.get(other)
                for s in ids:
                    ctx.equal(sorted(b.neighbors_of(s, include_weights=True)),
                              sorted(a.neighbors_of(s, include_weights=True)),
                              "neighborhoods are not restored", site=s)


def independent(ctx, sim, loaded, vecs):
    """What happens to the loaded simulation does not happen to the original."""
    before = (layout(sim.structure), content(sim.state))
    n = len(loaded.structure.site_ids)
    taken = loaded.structure.site_location(n - 1)
    try:
        loaded.structure.add_site("again", tuple(taken))
    except Exception:
        pass
    else:
        ctx.fail("a second site is added where there is one", at=taken)
    new = loaded.structure.add_site("new", geo.cart([0.377] * len(vecs), vecs))
    ctx.equal(new, n, "wrong id of a site that is added after loading")
    loaded.state.set_site_state(0, {"v": "changed", "more": 1})
    loaded.state.set_general_state({"time": 99})
    ctx.equal((layout(sim.structure), content(sim.state)), before,
              "changing the loaded simulation changes the original")


def _orders(case, ctx):
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    points = [(0,) * dim, (0.5,) * dim, (1 / 3,) * dim, (0.125,) * dim]
    for n in range(1, 5):
        struct = PeriodicStructure(Lattice(vecs))
        for i in range(n):
            struct.add_site("ABAC"[i], geo.cart(points[i], vecs))
        want = [("ABAC"[i], geo.cart(points[i], vecs)) for i in range(n)]
        sim = Simulation(make_state(struct), struct)
        for p in itertools.permutations(range(n)):
            ctx.at(order=p)
            loaded = reordered(sim, lambda ks, p=p: [ks[i] for i in p])
            same(ctx, sim, loaded, want, vecs, (True,) * dim, True)
            ctx.equal(layout(loaded.structure), layout(struct), "ids depend on the order")
            independent(ctx, sim, loaded, vecs)
            ctx.state((case["lattice"], p))
            ctx.step()
            ctx.trace()


def _large(case, ctx):
    """More sites than two digits can number."""
    vecs, size = geo.LATTICES[case["lattice"]], tuple(case["size"])
    dim = len(vecs)
    for name in ("center", "two"):
        motif = motif_for(name, dim, vecs, True)
        as_dict = motif if isinstance(motif, dict) else {"A": motif}
        for periodic in ((True,) * dim, (False,) + (True,) * (dim - 1)):
            struct = PeriodicStructure.build_from(
                Lattice(vecs, periodic), list(size), motif, frac_coords=True)
            sim = Simulation(make_state(struct), struct)
            for way in WAYS:
                ctx.at(motif=name, way=way)
                loaded = WAYS[way](sim)
                same(ctx, sim, loaded, geo.tile(vecs, size, as_dict, True),
                     geo.scaled(vecs, size), periodic, full=False)
                independent(ctx, sim, loaded, vecs)
                ctx.step()
            ctx.state((case["lattice"], name, periodic))
            ctx.trace()


def _states(case, ctx):
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    struct = PeriodicStructure.build_from(
        Lattice(vecs), [2, 2] + [1] * (dim - 2), {"A": [(0.25,) * dim]}, frac_coords=True
    )
    values = [None, {}, {"v": 0},
              {"v": [1, {"x": None}], "w": "t\n", "\u00fc": "\u2192", "i": float("inf"), "": -0.5}]
    for assignment in itertools.product(range(4), repeat=4):
        state = SimulationState()
        for sid, k in enumerate(assignment):
            if values[k] is not None:
                state.set_site_state(sid, copy.deepcopy(values[k]))
        if sum(assignment) % 2:
            # sites that are not part of the structure, or not yet
            state.set_site_state(100, {"v": 5})
            state.set_site_state(4, {})
        sim = Simulation(state, struct)
        for way in ("directly", "json", "file"):
            ctx.at(way=way, states=assignment)
            loaded = WAYS[way](sim)
            ctx.equal(content(loaded.state), content(state), "state is not restored")
            for sid in struct.site_ids:
                want = None
                if values[assignment[sid]] is not None:
                    want = {SITE_ID: sid, **values[assignment[sid]]}
                ctx.equal(loaded.state_at(tuple(struct.site_location(sid))), want,
                          "wrong state at a location")
            ctx.step()
            ctx.trace()
        ctx.state((case["lattice"], assignment))


def _classes(case, ctx):
    """Site classes of every kind of value come back as what they were."""
    values = [0, 7, -1.5, True, False, None, "7", "", "None", "0", "A B", "\u00e9"]
    for names in itertools.permutations(values, 2):
        names = [*names, names[0]]
        ctx.at(classes=names)
        struct = PeriodicStructure(Lattice(geo.LATTICES["square"], True))
        for i, c in enumerate(names):
            struct.add_site(c, (i / 4, 0))
        sim = Simulation(SimulationState.from_struct(struct), struct)
        for way in WAYS:
            loaded = WAYS[way](sim)
            ctx.equal([repr(s) for s in layout(loaded.structure)],
                      [repr(s) for s in layout(struct)], "wrong sites", way=way)
            for i, c in enumerate(names):
                ctx.equal(repr(loaded.structure.site_class(i)), repr(c), "wrong class",
                          way=way)
                ctx.equal(repr(loaded.structure.class_at((i / 4 + 1, 0))), repr(c),
                          "wrong class at a location", way=way)
                ctx.equal([s[SITE_ID] for s in loaded.structure.sites(c)],
                          [s[SITE_ID] for s in struct.sites(c)], "wrong sites of a class",
                          way=way)
            ctx.step()
        ctx.state(names)
        ctx.trace()
