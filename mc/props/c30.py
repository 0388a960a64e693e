"""Arguments of another type that mean the same give the same."""

import collections
import copy
import itertools
import types

import numpy as np

from pylattica.core import (
    AsynchronousRunner, BasicController, DistanceNeighborhoodBuilder, Lattice,
    MotifNeighborhoodBuilder, PeriodicStructure, Simulation, SimulationResult, SimulationState,
    StructureBuilder, SynchronousRunner,
)
from pylattica.core.lattice import pbc_diff_frac_vec, periodize
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder, SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder,
)
from pylattica.discrete import DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.models.game_of_life.controller import GameOfLifeController
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    DiscreteGridSetup, GrowthSetup, MooreNbHoodBuilder, VonNeumannNbHood2DBuilder,
)
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

from .. import explore as ex
from ..main import plain
from ..rules import GENERAL, SITES
from ..sut import content
from . import c24

BOUNDS = (
    "70 calls; each argument, and each part of it (2 of each sequence, 3 of each dictionary), in "
    "each of 3-12 forms (tuples, lists, arrays of several types, read-only, reversed views or "
    "not contiguous, numpy's numbers and text, derived classes of dict and str, dictionaries in "
    "another order), one at a time and in all pairs"
)
ASSUMPTIONS = [
    "counts are not given as floats; colours are tuples; sites are named by ints of Python in "
    "updates and by asynchronous controllers",
]


class Mapping(dict):
    pass


class Text(str):
    pass


Place = collections.namedtuple("Place", "x y")


# --- forms of a value: (name, value of the same meaning)


def count(v):
    """A number of something, or of a site."""
    for t in (np.int64, np.int32):
        yield t.__name__, t(v)


def real(v):
    yield "float", float(v)
    yield "float64", np.float64(v)
    if v == int(v):
        yield "int", int(v)
        yield "int64", np.int64(v)


def _arrays(v):
    yield "array", np.array(v)
    yield "float array", np.array(v, float)
    locked = np.array(v)
    locked.setflags(write=False)
    yield "read-only array", locked
    yield "view", np.array([v, v]).transpose(tuple(range(1, np.ndim(v) + 1)) + (0,))[..., 0]
    yield "column order", np.asfortranarray(np.array(v))


def place(v):
    yield "list", list(v)
    yield "tuple", tuple(v)
    if len(v) == 2:
        yield "named tuple", Place(*v)
    yield from _arrays(v)
    yield from _inside(v, real)


def sizes(v):
    yield "list", list(v)
    yield "tuple", tuple(v)
    yield "array", np.array(v)
    yield "array int32", np.array(v, np.int32)
    yield from _inside(v, count)


def size_tuple(v):
    yield from _inside(v, count)


def _inside(v, form, most=2):
    for i, x in enumerate(v[:most]):
        for name, y in form(x):
            changed = list(v)
            changed[i] = y
            yield f"[{i}] {name}", changed if isinstance(v, list) else tuple(changed)


def places(v):
    yield "list", list(v)
    yield "tuple", tuple(v)
    yield from _arrays(v)
    yield from _inside(v, place)


def place_list(v):
    """A list that is told from a dictionary, or from one place."""
    yield "tuple", tuple(v)
    yield from _inside(v, place)


def flags(v):
    if isinstance(v, bool):
        yield "each", (v, v)
        return
    yield "list", list(v)
    yield "tuple", tuple(v)
    yield from _inside(v, lambda x: [("numpy", np.bool_(x)), ("int", int(x))])


def name(v):
    yield "derived", Text(v)
    yield "numpy", np.str_(v)


def names(v):
    yield "tuple", tuple(v)
    yield "array", np.array(v)
    yield from _inside(v, name)


def mapping(value_form=None, key_form=None):
    def forms(v):
        yield "ordered", collections.OrderedDict(v)
        yield "derived", Mapping(v)
        yield "default", collections.defaultdict(lambda: 1 / 0, v)
        for k in list(v)[:3]:
            for n, y in value_form(v[k]) if value_form else ():
                yield f"[{k}] {n}", {**v, k: y}
            for n, y in key_form(k) if key_form else ():
                yield f"key {k} {n}", {(y if kk == k else kk): vv for kk, vv in v.items()}
    return forms


def any_order(v):
    yield "other order", dict(reversed(v.items()))
    yield "read-only", types.MappingProxyType(v)


def both(*forms):
    def out(v):
        for f in forms:
            yield from f(v)
    return out


def nothing(v):
    return ()


# --- the calls: name -> (function, arguments, forms of each)

PS = PhaseSet(["P", "Q", "R"])
V = [(1, 0), (0.25, 1.5)]
CUBE = [(1, 0, 0), (0, 1, 0), (0, 0, 2)]


class Fixed(BasicController):
    def __init__(self, update):
        self.update = update

    def get_state_update(self, site_id, prev_state):
        return copy.deepcopy(self.update)

    def get_random_site(self, state):
        return 1


def _build(vecs, periodic, num_cells, site_motif):
    struct = PeriodicStructure.build_from(Lattice(vecs, periodic), num_cells, site_motif)
    return [struct, c24.weights(DistanceNeighborhoodBuilder(1.2).get(struct), struct)]


def _add(site_class, location):
    struct = PeriodicStructure.build_from(Lattice(V), [2, 2], [(0, 0)])
    new = struct.add_site(site_class, location)
    return [new, struct, struct.id_at(location), struct.sites(site_class),
            struct.site_class(new), struct.all_site_classes()]


def _plain_state():
    state = SimulationState()
    for i in range(4):
        state.set_site_state(i, {"_site_id": i, OCC: "PQ"[i % 2]})
    return state


def _changed(fn):
    state = _plain_state()
    fn(state)
    return [content(state), state.site_ids()]


def _result(updates, interval):
    result = SimulationResult(_plain_state())
    result.add_step(updates)
    result.load_steps(interval)
    return [result.get_step(1), list(result.steps()), SimulationResult.from_dict(result.as_dict())]


def _sync(update, num_steps):
    return c24._run(SynchronousRunner(), _plain_state(), Fixed(update), num_steps)


def _async(update, num_steps):
    return c24._run(AsynchronousRunner(), _plain_state(), Fixed(update), num_steps)


def _parallel(workers, num_steps):
    runner = SynchronousRunner(parallel=True, workers=workers)
    return c24._run(runner, _plain_state(), Fixed({"a": 1}), num_steps)


def _hood(builder, struct):
    return c24.weights(builder.get(struct), struct)


W = c24.World(0)
BOX = PeriodicStructure.build_from(Lattice(CUBE, [True, False, True]), [3, 2, 2], [(0, 0, 0)])


def _img(colors, cell_size, label):
    artist = SquareGridArtist2D(W.grid, DiscreteCellArtist(colors))
    return artist.get_img(W.grid_state, cell_size=cell_size, label=label).tobytes()


def colour(v):
    yield from _inside(v, count, 3)


NAMED = mapping(None, name)
CALLS = {
    "lattice": (lambda vecs, periodic: c24._lattice_of(vecs, periodic),
                {"vecs": (V, places), "periodic": ((True, False), flags)}),
    "lattice 3D": (lambda vecs, periodic: c24._lattice_of(vecs, periodic),
                   {"vecs": (CUBE, places), "periodic": ((True, False, True), flags)}),
    "all periodic": (lambda vecs, periodic: c24._lattice_of(vecs, periodic),
                     {"vecs": (V, places), "periodic": (True, flags)}),
    "build": (_build, {"vecs": (V, places), "periodic": ([True, False], flags),
                       "num_cells": ([2, 3], sizes),
                       "site_motif": ({"A": [(0, 0)], "B": [(0.5, 0.25)]},
                                      mapping(places, name))}),
    "build list": (_build, {"vecs": (V, places), "periodic": (False, flags),
                            "num_cells": ((3, 2), sizes),
                            "site_motif": ([(0.25, 0), (0.5, 1)], place_list)}),
    "build 3D": (_build, {"vecs": (CUBE, places), "periodic": ((True, False, True), flags),
                          "num_cells": ([2, 1, 2], sizes),
                          "site_motif": ({"A": [(0, 0, 0)], "B": [(0.5, 0.5, 1)]},
                                         mapping(places, name))}),
    "fractional motif": (lambda num_cells, site_motif: PeriodicStructure.build_from(
        W.lattice, num_cells, site_motif, frac_coords=True),
        {"num_cells": ([2, 2], sizes),
         "site_motif": ({"A": [(0, 0)], "B": [(0.5, 0.25)]}, mapping(places, name))}),
    "scaled": (W.lattice.get_scaled_lattice, {"num_cells": ([2, 3], sizes)}),
    "cartesian": (W.lattice.get_cartesian_coords, {"fractional_coords": ((0.5, 1), place)}),
    "fractional": (W.lattice.get_fractional_coords, {"cart_coords": ((0.5, 1), place)}),
    "periodized": (W.lattice.get_periodized_cartesian_coords,
                   {"cart_coords": ((1.5, -1), place)}),
    "periodize": (periodize, {"frac_coords": ((1.5, -1), both(_arrays, place)),
                              "periodic": ((True, False), nothing)}),
    "difference": (pbc_diff_frac_vec, {"fcoords1": ([1.75, -1], place),
                                       "fcoords2": ([0, 0.25], place),
                                       "periodic": ((True, False), flags)}),
    "distance": (W.lattice.cartesian_periodic_distance,
                 {"loc1": ((1.5, -1), place), "loc2": ((0, 0.25), place)}),
    "site at": (W.struct.site_at, {"location": ((0, 1), place)}),
    "id at": (W.struct.id_at, {"location": ((0.5, 0.25), place)}),
    "class at": (W.struct.class_at, {"location": ([2.5, 1.25], place)}),
    "add site": (_add, {"site_class": ("B", name), "location": ((0.5, 0.75), place)}),
    "add sites": (_add, {"site_class": ("A", name), "location": ([1, 4], place)}),
    "get site": (W.struct.get_site, {"site_id": (1, count)}),
    "site class": (W.struct.site_class, {"site_id": (1, count)}),
    "site location": (W.struct.site_location, {"site_id": (3, count)}),
    "sites": (W.struct.sites, {"site_class": ("A", name)}),
    "state at": (W.simulation.state_at, {"location": ((0, 1), place)}),
    "builder": (lambda lattice, motif, size: StructureBuilder(lattice, motif).build(size),
                {"lattice": (W.lattice, nothing),
                 "motif": ({"A": [(0, 0)], "B": [(0.5, 0.25)]}, mapping(places, name)),
                 "size": ((2, 3), size_tuple)}),
    "builder of a cube": (lambda motif, size: StructureBuilder(W.lattice, motif).build(size),
                          {"motif": ({"A": [(0, 0)]}, mapping(places, name)),
                           "size": (2, nothing)}),
    "distance hood": (lambda cutoff: _hood(DistanceNeighborhoodBuilder(cutoff), W.struct),
                      {"cutoff": (2, real)}),
    "annular hood": (lambda cutoff, shortcut: _hood(
        AnnularNeighborhoodBuilder(cutoff, shortcut), W.struct),
        {"cutoff": (2, real), "shortcut": (1.0, real)}),
    "motif hood": (lambda motif: _hood(MotifNeighborhoodBuilder(motif), W.grid),
                   {"motif": ([(1, 0), (0, -1), (1, 1)], places)}),
    "motif hood 3D": (lambda motif: _hood(MotifNeighborhoodBuilder(motif), BOX),
                      {"motif": ([(1, 0, 0), (0, -1, 2)], places)}),
    "moore": (lambda size, dim: _hood(MooreNbHoodBuilder(size, dim=dim), W.grid),
              {"size": (1, count), "dim": (2, count)}),
    "moore 3D": (lambda size, dim: _hood(MooreNbHoodBuilder(size, dim=dim), BOX),
                 {"size": (1, count), "dim": (3, count)}),
    "neumann": (lambda size: _hood(VonNeumannNbHood2DBuilder(size), W.grid),
                {"size": (1, count)}),
    "neighbors": (lambda site_id: sorted(W.hood.neighbors_of(site_id)),
                  {"site_id": (3, count)}),
    "weights": (lambda site_id: sorted(W.struct_hood.neighbors_of(site_id, include_weights=True)),
                {"site_id": (3, count)}),
    "per class": (lambda builders: c24.neighbors(
        SiteClassNeighborhoodBuilder(builders).get(W.struct), W.struct),
        {"builders": ({"A": W.distance, "B": W.annular}, both(NAMED, any_order))}),
    "either": (lambda builders: c24.neighbors(
        StochasticNeighborhoodBuilder(builders).get(W.grid), W.grid),
        {"builders": ([W.moore, W.neumann], lambda v: [("tuple", tuple(v))])}),
    "set site": (lambda site_id, updates: _changed(lambda s: s.set_site_state(site_id, updates)),
                 {"site_id": (1, count), "updates": ({"a": 1, "b": 2}, mapping(real, name))}),
    "new site": (lambda site_id, updates: _changed(lambda s: s.set_site_state(site_id, updates)),
                 {"site_id": (17, count), "updates": ({"a": 1}, mapping(real, name))}),
    "get state": (lambda site_id: _plain_state().get_site_state(site_id),
                  {"site_id": (1, count)}),
    "set general": (lambda updates: _changed(lambda s: s.set_general_state(updates)),
                    {"updates": ({"a": 1, "b": 2}, mapping(real, name))}),
    "batch": (lambda updates: _changed(lambda s: s.batch_update(updates)),
              {"updates": ({SITES: {1: {"a": 1}, 9: {"b": 1}}, GENERAL: {"b": 2}},
                           mapping(mapping(None, None), name))}),
    "sites in batch": (lambda updates: _changed(lambda s: s.batch_update(updates)),
                       {"updates": ({1: {"a": 1}, 3: {OCC: "R"}},
                                    mapping(mapping(None, name), count))}),
    "state": (lambda state: SimulationState(state),
              {"state": ({SITES: {1: {"a": 1}, 0: {"b": 2}}, GENERAL: {"b": 2}},
                         mapping(mapping(None, None), None))}),
    "result": (_result, {"updates": ({1: {"a": 1}, 2: {OCC: "R"}},
                                     mapping(mapping(None, name), None)),
                         "interval": (1, count)}),
    "step": (W.result.get_step, {"step_no": (2, count)}),
    "serial": (_sync, {"update": ({"a": 1, "b": "x"}, mapping(None, name)),
                       "num_steps": (2, count)}),
    "serial, sites": (_sync, {"update": ({1: {"a": 1}, 3: {"b": 1}},
                                         mapping(mapping(None, name), None)),
                              "num_steps": (2, count)}),
    "serial, all": (_sync, {"update": ({SITES: {1: {"a": 1}}, GENERAL: {"z": 3}},
                                       mapping(mapping(None, None), name)),
                            "num_steps": (1, count)}),
    "one by one": (_async, {"update": ({"a": 1, "b": "x"}, mapping(None, name)),
                            "num_steps": (2, count)}),
    "one by one, sites": (_async, {"update": ({1: {"a": 1}, 3: {"b": 1}},
                                              mapping(mapping(None, name), None)),
                                   "num_steps": (3, count)}),
    "parallel": (_parallel, {"workers": (2, count), "num_steps": (1, count)}),
    "life": (lambda variant: c24._run(
        SynchronousRunner(), W.life_state, GameOfLifeController(W.grid, variant), 2),
        {"variant": ("B36/S23", name)}),
    "growth": (lambda phases, background_phase: c24._run(
        SynchronousRunner(), W.grid_state,
        GrowthController(PhaseSet(phases), W.grid, background_phase=background_phase), 1),
        {"phases": (["P", "Q", "R"], names), "background_phase": ("R", name)}),
    "sites where": (W.analyzer.get_sites_where_equal, {
        "state": (W.state, nothing), "state_pairs": ({OCC: "P"}, mapping(name, name)),
        "site_class": ("A", name)}),
    "criteria": (lambda state_criteria: W.analyzer.get_sites(
        W.state, state_criteria=state_criteria),
        {"state_criteria": (W.criteria, lambda v: [("tuple", tuple(v))])}),
    "count": (lambda phase: [DiscreteStepAnalyzer().cell_count(W.grid_state, phase),
                             DiscreteStepAnalyzer().cell_fraction(W.grid_state, phase)],
              {"phase": ("P", name)}),
    "fraction at": (W.result_analyzer.phase_fraction_at,
                    {"step": (1, count), "phase": ("alive", name)}),
    "phases": (lambda phases: sorted(PhaseSet(phases).phases),
               {"phases": (["P", "Q", "P"], names)}),
    "interface": (DiscreteGridSetup(PS).setup_interface, {
        "size": (4, count), "p1": ("P", name), "p2": ("Q", name)}),
    "particle": (DiscreteGridSetup(PS).setup_particle, {
        "size": (5, count), "radius": (2, real), "bulk_phase": ("P", name),
        "particle_phase": ("Q", name)}),
    "coords": (DiscreteGridSetup(PS).setup_coords, {
        "size": (3, count), "background_state": ("R", name),
        "coordinates": ({"P": [(0, 0), (1, 2)], "Q": [[2, 2]]},
                        both(mapping(places, name), any_order))}),
    "coords 3D": (DiscreteGridSetup(PS, dim=3).setup_coords, {
        "size": (2, count), "background_state": ("R", name),
        "coordinates": ({"P": [(0, 0, 1), (1, 1, 1)]}, mapping(places, name))}),
    "noise": (DiscreteGridSetup(PS).setup_noise, {
        "size": (2, count), "phases": (["P", "Q"], names)}),
    "random particles": (DiscreteGridSetup(PS).setup_random_particles, {
        "size": (4, count), "radius": (1, real), "num_particles": (2, count),
        "bulk_phase": ("R", name), "particle_phases": (["P", "Q"], names)}),
    "random sites": (DiscreteGridSetup(PS).setup_random_sites, {
        "size": (4, count), "num_sites_desired": (2, count),
        "background_spec": ("R", name), "nuc_amts": ({"P": 1, "Q": 1}, mapping(real, name)),
        "buffer": (1, count)}),
    "grow": (lambda size, num_sites_desired, background_phase, nuc_phases: GrowthSetup(PS).grow(
        size, num_sites_desired, background_phase, nuc_phases, MooreNbHoodBuilder(1)),
        {"size": (3, count), "num_sites_desired": (1, count), "background_phase": ("R", name),
         "nuc_phases": ({"P": 1}, mapping(real, name))}),
    "picture": (_img, {"colors": ({"P": (1, 2, 3), "Q": (200, 0, 50), "R": (9, 9, 9)},
                                  mapping(colour, name)),
                       "cell_size": (3, count), "label": ("Step 1", name)}),
    "colours": (DiscreteCellArtist.build_color_map_from_phase_list,
                {"phases": (["P", "Q"], names)}),
    "simulation": (lambda state, structure: Simulation(state, structure).state_at((0, 0)),
                   {"state": (W.state, nothing), "structure": (W.struct, nothing)}),
}


def _ask(fn, args):
    def body(_):
        given = {k: _copied(v) for k, v in args.items()}
        return c24.look(fn(*given.values()))

    value = ex.run_with(ex.Chooser(depth=0), body)
    return value if isinstance(value, bytes) else _rounded(plain(value))


def _rounded(x):
    """x without the last digits, which depend on how numpy lays out an array."""
    if isinstance(x, dict):
        return {k: _rounded(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_rounded(v) for v in x]
    return round(x, 9) + 0.0 if isinstance(x, float) else x


def _copied(v):
    if isinstance(v, types.MappingProxyType):
        return types.MappingProxyType(copy.deepcopy(dict(v)))
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (dict, list, tuple)):
        return copy.deepcopy(v)
    return v


def cases(tier):
    out = [{"call": c, "kind": "one"} for c in CALLS]
    for c, (_, args) in CALLS.items():
        varied = [k for k, (v, forms) in args.items() if list(forms(v))]
        for pair in itertools.combinations(varied, 2):
            out.append({"call": c, "kind": "two", "args": list(pair)})
        if tier == "thorough":
            for triple in itertools.combinations(varied, 3):
                out.append({"call": c, "kind": "two", "args": list(triple)})
    return out


def run(case, ctx):
    fn, args = CALLS[case["call"]]
    usual = {k: v for k, (v, _) in args.items()}
    want = _ask(fn, usual)
    if case["kind"] == "one":
        combos = [{}] + [{k: form} for k, (v, forms) in args.items() for form in forms(v)]
    else:
        combos = [dict(zip(case["args"], chosen)) for chosen in itertools.product(
            *(list(args[k][1](args[k][0])) for k in case["args"]))]
    for combo in combos:
        given = {**usual, **{k: value for k, (_, value) in combo.items()}}
        named = {k: form for k, (form, _) in combo.items()}
        ctx.at(call=case["call"], forms=named)
        ctx.equal(_ask(fn, given), want, "an argument in another form gives something else",
                  call=case["call"], forms=named)
        ctx.step()
        ctx.state((case["call"], tuple(named.items())))
    ctx.trace(len(combos))
