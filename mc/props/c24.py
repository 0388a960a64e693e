"""Asking and building change nothing: what a call gives depends on its arguments only."""

import copy
import itertools
import os
import pickle
import signal
import tempfile

import numpy as np
from pymatgen.core.lattice import Lattice as PmgLattice
from pymatgen.core.structure import Structure as PmgStructure

from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    DistanceNeighborhoodBuilder,
    Lattice,
    MotifNeighborhoodBuilder,
    PeriodicStructure,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
    StructureBuilder,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.models.game_of_life.controller import GameOfLifeController
from pylattica.models.growth.growth_controller import GrowthController
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    MooreNbHoodBuilder,
    VonNeumannNbHood2DBuilder,
)
from pylattica.structures.square_grid.lattice import SquareGridLattice2D
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

from .. import explore as ex
from .. import vpool
from ..main import plain
from ..rules import GENERAL, SITES
from ..sut import content, history

BOUNDS = (
    "every ordered pair of 110 calls over two sets of objects (a square and a skewed lattice, "
    "structures, states, results, neighborhoods, controllers, artists, ...), from a fresh "
    "process state each, all consecutive pairs in one long history (triples in the thorough "
    "tier), and every ordered pair in 8 families of up to 63 objects that differ in one or two "
    "parameters, each call compared with what it gives in a fresh process, and all objects compared "
    "with what they were"
)
ASSUMPTIONS = ["draws take fixed values", "calls do not overlap (C25 covers that)"]


class World:
    """Objects of all kinds, as a user has them around."""

    def __init__(self, i):
        self.i = i
        vecs = ([(1, 0), (0, 1)], [(1.0, 0.0), (0.25, 1.5)])[i]
        self.vecs = copy.deepcopy(vecs)
        self.periodic = ([True, True], [True, False])[i]
        self.size = ([2, 2], [3, 2])[i]
        self.motif = (
            {"A": [(0, 0)], "B": [(0.5, 0.25)]},
            {"C": [[1.75, -0.5], [0.0, 0.0]], "B": [np.array([0.25, 0.5])]},
        )[i]
        self.list_motif = [(0.0, 0.0), [0.5, 0.5]] if i else [(0.25, 0.25)]
        self.lattice = Lattice(self.vecs, tuple(self.periodic))
        self.struct = PeriodicStructure.build_from(self.lattice, self.size, self.motif)
        self.grid = PeriodicStructure.build_from(SquareGridLattice2D(), [3, 3], [(0, 0)])
        # as many sites of the same classes, but elsewhere, and the grid numbered backwards
        self.twin = PeriodicStructure.build_from(
            self.lattice, self.size, ({"A": [(0.5, 0.75)], "B": [(0.25, 0.25)]},
                                      {"B": [(0, 0)], "C": [(0.5, 0.5), (0.25, 1)]})[i])
        self.twin_grid = PeriodicStructure(SquareGridLattice2D().get_scaled_lattice([3, 3]))
        for place in reversed([tuple(s["_location"]) for s in self.grid.sites()]):
            self.twin_grid.add_site("A", place)
        self.points = [(0.1, 0.2), [2.5, -0.75], np.array([-0.5, 3.0])]
        self.phases = ["P", "Q", "P", "R"] if i else ["Q", "P"]
        self.colors = {"P": (1, 2, 3), "Q": (200, 100 * i, 50)}
        if i:
            self.colors["R"] = (9, 9, 9)
        self.phase_set = PhaseSet(["P", "Q", "R"])
        self.state_dict = {
            SITES: {s: {"_site_id": s, OCC: "PQR"[(s + i) % 3], "n": {"deep": [s]}}
                    for s in self.struct.site_ids},
            GENERAL: {"g": [1, i]},
        }
        self.state = SimulationState(self.state_dict)
        self.update = {SITES: {0: {"n": {"deep": [9, i]}, "x": 1}, 77: {"y": [2]}},
                       GENERAL: {"h": {"k": i}}}
        self.site_update = {1: {"z": [i]}, 0: {OCC: "R"}}
        self.result = SimulationResult(self.state.copy())
        self.result.add_step({SITES: {0: {"x": [1]}}, GENERAL: {"t": 1}})
        self.result.add_step({1: {OCC: "R"}})
        self.result.add_step({SITES: {}, GENERAL: {"t": i}})
        # as they come out of a file: with text for keys
        self.saved_state = {"state": {SITES: {"0": {"_site_id": 0, OCC: "Q"}, "10": {"a": [i]}},
                                      GENERAL: {}}}
        self.saved_result = {"initial_state": copy.deepcopy(self.saved_state),
                             "diffs": [{"0": {OCC: "P"}}, {SITES: {"10": {"a": 1}}},
                                       {GENERAL: {"g": i}}]}
        self.saved_struct = copy.deepcopy(self.struct.as_dict())
        self.saved_struct["_sites"] = {str(k): v for k, v in self.saved_struct["_sites"].items()}
        self.saved_lattice = copy.deepcopy(self.lattice.as_dict())
        self.simulation = Simulation(self.state, self.struct)
        self.saved_simulation = {"state": copy.deepcopy(self.saved_state),
                                 "structure": copy.deepcopy(self.saved_struct)}
        self.grid_state = SimulationState.from_struct(self.grid)
        for s in self.grid.site_ids:
            self.grid_state.set_site_state(s, {OCC: "PQR"[(s * s + i) % 3]})
        self.life_state = SimulationState.from_struct(self.grid)
        for s in self.grid.site_ids:
            self.life_state.set_site_state(s, {OCC: "dead" if (s + i) % 3 else "alive"})
        self.life_result = SimulationResult(self.life_state.copy())
        self.life_result.add_step({0: {OCC: "alive"}})
        self.twin_state = SimulationState.from_struct(self.twin)
        for s in self.twin.site_ids:
            self.twin_state.set_site_state(s, {OCC: "QRPR"[(s + i) % 4], "log": [1]})
        self.twin_grid_state = SimulationState.from_struct(self.twin_grid)
        for s in self.twin_grid.site_ids:
            self.twin_grid_state.set_site_state(s, {OCC: "PRQ"[(s // 2 + i) % 3]})
        self.twin_life_state = SimulationState.from_struct(self.twin_grid)
        for s in self.twin_grid.site_ids:
            self.twin_life_state.set_site_state(s, {OCC: "dead" if s % 2 else "alive"})
        self.criteria = [lambda s: s.get(OCC) != "P", lambda s: s["_site_id"] != 1]
        self.pairs = {OCC: "Q"}
        self.distance = DistanceNeighborhoodBuilder(1.1 + i * 0.7)
        self.annular = AnnularNeighborhoodBuilder(1.9, 0.6 + 0.3 * i)
        self.offsets = [(1, 0), [0, 1 + i]]
        self.motif_builder = MotifNeighborhoodBuilder(self.offsets)
        self.class_builder = SiteClassNeighborhoodBuilder(
            {"A": self.distance, "B": self.annular}
        )
        self.moore = MooreNbHoodBuilder(1)
        self.neumann = VonNeumannNbHood2DBuilder(1)
        self.hood = self.moore.get(self.grid)
        self.struct_hood = self.distance.get(self.struct)
        self.life = GameOfLifeController(self.grid, ("B3/S23", "B2/S")[i])
        self.growth = GrowthController(self.phase_set, self.grid, background_phase="R")
        self.serial = SynchronousRunner()
        self.asynchronous = AsynchronousRunner()
        self.rule = Rule(i)
        self.other_rule = Rule(i + 2)
        self.either = StochasticNeighborhoodBuilder([self.moore, self.neumann])
        self.cells = DiscreteCellArtist(self.colors)
        self.artist = SquareGridArtist2D(self.grid, self.cells)
        self.analyzer = StateAnalyzer(self.struct)
        self.steps_analyzer = DiscreteStepAnalyzer()
        self.result_analyzer = DiscreteResultAnalyzer(self.life_result)
        self.setup = DiscreteGridSetup(self.phase_set)
        # not in any order
        self.coords = {"Q": [(1, i)], "P": [(1, 1), (0, 0)]}
        self.amounts = {"Q": 1, "P": 1 + i}
        self.builder = StructureBuilder(self.lattice, self.motif)
        self.converter = PymatgenStructureConverter()
        self.pmg = PmgStructure(
            PmgLattice(np.diag([3.0, 4.0 + i, 5.0]), pbc=(True, True, i == 0)),
            ["Na", "Cl"], [(0, 0, 0), (0.5, 0.25, 0.5)],
        )
        self.atoms, self.atoms_state = self.converter.to_pylattica_structure_and_state(self.pmg)


class Rule(BasicController):
    def __init__(self, i):
        self.i = i

    def get_random_site(self, state):
        return state.site_ids()[self.i]

    def get_state_update(self, site_id, prev_state):
        n = len(prev_state.get_site_state(site_id).get("log", []))
        return {SITES: {site_id: {"log": [self.i] * (n + 1)}}, GENERAL: {f"s{site_id}": n}}


# --- what objects look like from the outside


def look(x):
    if isinstance(x, SimulationState):
        return ("state", content(x))
    if isinstance(x, SimulationResult):
        return ("result", history(x), look(x.initial_state))
    if isinstance(x, PeriodicStructure):
        return ("structure", [look(s) for s in x.sites()], list(x.site_ids), look(x.lattice))
    if isinstance(x, Lattice):
        return ("lattice", look(x.as_dict()), [x.get_cartesian_coords(p).tolist()
                                              for p in ([0.5] * x.dim, [-1.25] * x.dim)])
    if isinstance(x, Simulation):
        return ("simulation", look(x.state), look(x.structure))
    if isinstance(x, PmgStructure):
        return ("pymatgen", x.lattice.matrix.tolist(), tuple(bool(p) for p in x.lattice.pbc),
                [(s.species_string, [round(float(c), 9) for c in s.frac_coords]) for s in x])
    if isinstance(x, dict):
        return {k: look(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [look(v) for v in x]
    if isinstance(x, np.ndarray):
        return ["array", x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (set, frozenset)):
        return sorted((look(v) for v in x), key=repr)
    return x


SEEN = [
    "vecs", "periodic", "size", "motif", "list_motif", "lattice", "struct", "grid", "points",
    "phases", "colors", "state_dict", "state", "update", "site_update", "result",
    "saved_state", "saved_result", "saved_struct", "saved_lattice", "simulation",
    "saved_simulation", "grid_state", "life_state", "life_result", "offsets", "coords",
    "amounts", "pmg", "atoms", "atoms_state", "twin", "twin_grid", "twin_state",
    "twin_grid_state", "twin_life_state", "criteria", "pairs",
]


def snapshot(w):
    return {name: look(getattr(w, name)) for name in SEEN}


# --- the calls


def neighbors(hood, struct):
    return [sorted(hood.neighbors_of(s)) for s in struct.site_ids]


def weights(hood, struct):
    return [sorted((n, round(float(d), 6)) for n, d in hood.neighbors_of(s, include_weights=True))
            for s in struct.site_ids]


def _run(runner, state, controller, steps):
    result = runner.run(state, controller, steps)
    return history(result), content(result.output)


def _in_parallel(w, state, controller):
    with vpool.controlled(2):
        return _run(SynchronousRunner(parallel=True, workers=2), state, controller, 1)


def _changed(state, fn):
    state = state.copy()
    fn(state)
    return state


def _filled(w, updates):
    result = SimulationResult(w.state.copy())
    for u in updates:
        result.add_step(u)
    result.load_steps(2)
    return result


def _file(x, cls, name):
    path = os.path.abspath(name)
    x.to_file(path)
    out = cls.from_file(path)
    os.unlink(path)
    return out


def _sites(struct):
    return sorted((s["_site_id"], str(s["_site_class"]), s["_location"].tolist())
                  for s in struct.sites())


CALLS = {
    "build": lambda w: PeriodicStructure.build_from(w.lattice, w.size, w.motif),
    "build list": lambda w: PeriodicStructure.build_from(w.lattice, w.size, w.list_motif),
    "build frac": lambda w: PeriodicStructure.build_from(
        w.lattice, w.size, w.motif, frac_coords=True),
    "builder int": lambda w: w.builder.build(2),
    "builder tuple": lambda w: w.builder.build((1, 2)),
    "new lattice": lambda w: Lattice(w.vecs, tuple(w.periodic)),
    "aperiodic lattice": lambda w: Lattice(w.vecs, False).get_scaled_lattice(w.size),
    "default lattice": lambda w: Lattice(w.vecs),
    "scaled": lambda w: w.lattice.get_scaled_lattice(w.size),
    "cartesian": lambda w: [w.lattice.get_cartesian_coords(p) for p in w.points],
    "fractional": lambda w: [w.lattice.get_fractional_coords(p) for p in w.points],
    "periodized": lambda w: [w.lattice.get_periodized_cartesian_coords(p) for p in w.points],
    "lattice from dict": lambda w: Lattice.from_dict(w.saved_lattice),
    "lattice as dict": lambda w: w.lattice.as_dict(),
    "site at": lambda w: [w.struct.site_at(p) for p in [*w.points, (0, 0), (1, 1)]],
    "id at": lambda w: [w.struct.id_at(s["_location"]) for s in w.struct.sites()],
    "class at": lambda w: [w.struct.class_at((x, 0)) for x in range(3)],
    "sites": lambda w: [w.struct.sites(), w.struct.sites("A"), w.struct.sites("B")],
    "classes": lambda w: sorted(w.struct.all_site_classes()),
    "one site": lambda w: [w.struct.get_site(1), w.struct.site_class(0),
                           w.struct.site_location(1), w.struct.get_site(99)],
    "structure as dict": lambda w: w.struct.as_dict(),
    "structure from dict": lambda w: PeriodicStructure.from_dict(w.saved_struct),
    "moore": lambda w: neighbors(w.moore.get(w.grid), w.grid),
    "moore 2": lambda w: neighbors(MooreNbHoodBuilder(2).get(w.grid), w.grid),
    "neumann": lambda w: neighbors(w.neumann.get(w.grid), w.grid),
    "distance": lambda w: weights(w.distance.get(w.struct), w.struct),
    "distance of class": lambda w: neighbors(w.distance.get(w.struct, "B"), w.struct),
    "annular": lambda w: weights(w.annular.get(w.struct), w.struct),
    "motif hood": lambda w: neighbors(w.motif_builder.get(w.grid), w.grid),
    "class hood": lambda w: neighbors(w.class_builder.get(w.struct), w.struct),
    "neighbors": lambda w: neighbors(w.hood, w.grid),
    "weights": lambda w: weights(w.struct_hood, w.struct),
    "state from struct": lambda w: SimulationState.from_struct(w.struct),
    "state from dict": lambda w: SimulationState.from_dict(w.saved_state),
    "state of dict": lambda w: SimulationState(w.state_dict),
    "blank state": lambda w: SimulationState(),
    "state copy": lambda w: w.state.copy(),
    "state as dict": lambda w: w.state.as_dict()["state"],
    "batch": lambda w: _changed(w.state, lambda s: s.batch_update(w.update)),
    "site batch": lambda w: _changed(w.state, lambda s: s.batch_update(w.site_update)),
    "set site": lambda w: _changed(w.state, lambda s: s.set_site_state(0, w.update[SITES][0])),
    "set general": lambda w: _changed(
        w.state, lambda s: s.set_general_state(w.update[GENERAL])),
    "site ids": lambda w: [w.state.site_ids(), w.state.size, w.state.get_site_state(0),
                           w.state.get_site_state(50), w.state.get_general_state()],
    "equal": lambda w: [w.state == w.state.copy(), w.state == w.grid_state],
    "result": lambda w: _filled(w, [w.update, w.site_update, w.update]),
    "step": lambda w: [w.result.get_step(k) for k in (2, 0, 3)],
    "steps": lambda w: list(w.result.steps()),
    "load": lambda w: [w.result.load_steps(1 + w.i), w.result.get_step(2), len(w.result)],
    "first and last": lambda w: [w.result.first_step, w.result.last_step],
    "result as dict": lambda w: {k: v for k, v in w.result.as_dict().items() if k == "diffs"},
    "result from dict": lambda w: SimulationResult.from_dict(w.saved_result),
    "result file": lambda w: _file(w.result, SimulationResult, "r.json"),
    "simulation file": lambda w: _file(w.simulation, Simulation, "s.json"),
    "simulation from dict": lambda w: Simulation.from_dict(w.saved_simulation),
    "state at": lambda w: [w.simulation.state_at(p) for p in [*w.points, (0, 0)]],
    "serial": lambda w: _run(w.serial, w.state, w.rule, 2),
    "parallel": lambda w: _in_parallel(w, w.state, w.rule),
    "asynchronous": lambda w: _run(AsynchronousRunner(), w.state, w.rule, 3),
    "life": lambda w: _run(w.serial, w.life_state, w.life, 2),
    "other life": lambda w: _run(
        w.serial, w.life_state, GameOfLifeController(w.grid, "B13/S2"), 1),
    "default life": lambda w: _run(
        w.serial, w.life_state, GameOfLifeController(w.grid), 1),
    "growth": lambda w: [len(h) for h in _run(w.serial, w.grid_state, w.growth, 1)],
    "picture": lambda w: w.artist.get_img(w.grid_state, cell_size=3).tobytes(),
    "labelled picture": lambda w: w.artist.get_img(
        w.grid_state, cell_size=4, label="Step").tobytes(),
    "legend": lambda w: w.cells.get_legend(w.grid_state),
    "colours": lambda w: DiscreteCellArtist.build_color_map_from_phase_list(w.phases),
    "sites where": lambda w: w.analyzer.get_sites_where_equal(w.state, {OCC: "P"}),
    "sites of class": lambda w: w.analyzer.get_sites_where_equal(w.state, {OCC: "Q"}, "B"),
    "counts": lambda w: [w.steps_analyzer.cell_count(w.grid_state, p) for p in "PQR"]
    + [w.steps_analyzer.cell_fraction(w.grid_state, "P")],
    "phases": lambda w: sorted(w.steps_analyzer.phases_present(w.grid_state)),
    "all phases": lambda w: [sorted(w.result_analyzer.all_phases()),
                             w.result_analyzer.final_phase_fractions(),
                             w.result_analyzer.phase_fraction_at(1, "alive")],
    "interface": lambda w: w.setup.setup_interface(3, *"PQ"),
    "particle": lambda w: w.setup.setup_particle(3, 1 + w.i, "P", "Q"),
    "coords": lambda w: w.setup.setup_coords(2, "R", w.coords),
    "noise": lambda w: w.setup.setup_noise(2, w.phases),
    "random sites": lambda w: sorted(
        s[OCC] for s in w.setup.setup_random_sites(
            3, 2 + w.i, "R", w.amounts, buffer=None).state.all_site_states()),
    "from pymatgen": lambda w: w.converter.to_pylattica_structure_and_state(w.pmg),
    "to pymatgen": lambda w: w.converter.to_pymatgen_structure(w.atoms),
    # the same tools on other objects
    "distance of twin": lambda w: weights(w.distance.get(w.twin), w.twin),
    "distance of class of twin": lambda w: weights(w.distance.get(w.twin, "B"), w.twin),
    "annular of twin": lambda w: weights(w.annular.get(w.twin), w.twin),
    "class hood of twin": lambda w: neighbors(w.class_builder.get(w.twin), w.twin),
    "motif hood of twin": lambda w: neighbors(w.motif_builder.get(w.twin_grid), w.twin_grid),
    "moore of twin": lambda w: neighbors(w.moore.get(w.twin_grid), w.twin_grid),
    "neumann of twin": lambda w: neighbors(w.neumann.get(w.twin_grid), w.twin_grid),
    "either": lambda w: neighbors(w.either.get(w.grid), w.grid),
    "either of twin": lambda w: neighbors(w.either.get(w.twin_grid), w.twin_grid),
    "twin from struct": lambda w: SimulationState.from_struct(w.twin),
    "twin at": lambda w: [w.twin.site_at(p) for p in [*w.points, (0.5, 0.75)]],
    "twin classes": lambda w: [w.twin.sites("A"), w.twin.sites("C")],
    "sites with": lambda w: w.analyzer.get_sites(w.state, state_criteria=w.criteria),
    "sites of class with": lambda w: w.analyzer.get_sites(w.state, "A", w.criteria),
    "count with": lambda w: w.analyzer.get_site_count(w.state, "B", w.criteria),
    "sites of twin": lambda w: w.analyzer.get_sites_where_equal(w.twin_state, w.pairs),
    "sites of class of twin": lambda w: w.analyzer.get_sites_where_equal(
        w.twin_state, w.pairs, "B"),
    "count of twin": lambda w: w.analyzer.get_site_count_where_equal(w.twin_state, w.pairs),
    "counts of twin": lambda w: [
        w.steps_analyzer.cell_count(w.twin_grid_state, p) for p in "PQR"],
    "phases of twin": lambda w: sorted(w.steps_analyzer.phases_present(w.life_state)),
    "serial of twin": lambda w: _run(w.serial, w.twin_state, w.rule, 1),
    "serial, other rule": lambda w: _run(w.serial, w.state, w.other_rule, 2),
    "parallel, other rule": lambda w: _in_parallel(w, w.twin_state, w.other_rule),
    "asynchronous again": lambda w: _run(w.asynchronous, w.state, w.rule, 2),
    "asynchronous, other rule": lambda w: _run(w.asynchronous, w.twin_state, w.other_rule, 2),
    "life of another state": lambda w: _run(w.serial, w.twin_life_state, w.life, 1),
    "life of twin": lambda w: _run(
        w.serial, w.twin_life_state, GameOfLifeController(w.twin_grid, "B2/S"), 1),
    "picture of another state": lambda w: w.artist.get_img(
        w.twin_grid_state, cell_size=3).tobytes(),
    "picture of twin": lambda w: SquareGridArtist2D(w.twin_grid, w.cells).get_img(
        w.grid_state, cell_size=3).tobytes(),
    "legend of twin": lambda w: w.cells.get_legend(w.twin_grid_state),
    "other coords": lambda w: w.setup.setup_coords(3, "Q", w.coords),
    "other interface": lambda w: w.setup.setup_interface(4, *"QR"),
}
# --- families of objects of one kind that have much in common


def _lattice_of(vecs, periodic):
    lattice = Lattice(vecs, periodic)
    points = [(0.3,) * lattice.dim, (1.7, -2.4, 0.9)[: lattice.dim], (-0.2, 0.6, 3)[: lattice.dim]]
    struct = PeriodicStructure.build_from(
        lattice, [2] * lattice.dim,
        {"A": [(0,) * lattice.dim], "B": [(0.5, 0.25, 0.75)[: lattice.dim]]}, frac_coords=True)
    return [
        lattice.as_dict(), lattice.get_scaled_lattice([1, 2, 3][: lattice.dim]),
        [f(p).tolist() for p in points for f in (
            lattice.get_cartesian_coords, lattice.get_fractional_coords,
            lattice.get_periodized_cartesian_coords)],
        [round(float(lattice.cartesian_periodic_distance(p, q)), 6)
         for p in points for q in points],
        [struct.id_at(p) for p in points], _sites(struct),
        weights(DistanceNeighborhoodBuilder(0.9).get(struct), struct),
        PeriodicStructure.from_dict(struct.as_dict()),
    ]


_R3 = 3**0.5 / 2
_LATTICES = [
    (vecs, periodic)
    for vecs in (
        [(1, 0), (0, 1)], [(0, 1), (1, 0)], [(-1, 0), (0, 1)], [(1, 0), (0, -1)],
        [(1, 0), (0.5, _R3)], [(1, 0), (-0.5, _R3)], [(0.6, 0.8), (-0.8, 0.6)],
        [(1, 0), (1, 1)], [(1, 0), (0.002, 1)], [(1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1,)],
        [(1, 0, 0), (0.5, _R3, 0), (0, 0, 1)],
    )
    for periodic in ((True,) * len(vecs), (False,) * len(vecs))
] + [([(1, 0), (0, 1)], (True, False)), ([(1, 0), (0, 1)], (False, True))]


def _box(cells, periodic):
    lattice = Lattice([tuple(int(i == j) for j in range(len(cells))) for i in range(len(cells))],
                      periodic)
    return PeriodicStructure.build_from(lattice, list(cells), [(0,) * len(cells)])


_BOXES = [((3, 3), True), ((3, 3), False), ((2, 4), True), ((4, 2), True), ((4, 2), False),
          ((8,), True), ((2, 2, 2), True)]


def _hood_of(make, cells, periodic):
    struct = _box(cells, periodic)
    return weights(HOODS[make](len(cells)).get(struct), struct)


HOODS = {
    "moore 1": lambda dim: MooreNbHoodBuilder(1, dim=dim),
    "moore 2": lambda dim: MooreNbHoodBuilder(2, dim=dim),
    "distance 1.1": lambda dim: DistanceNeighborhoodBuilder(1.1),
    "distance 1.5": lambda dim: DistanceNeighborhoodBuilder(1.5),
    "annular": lambda dim: AnnularNeighborhoodBuilder(1.1, 1.5),
    "motif": lambda dim: MotifNeighborhoodBuilder([(1,) + (0,) * (dim - 1)]),
    "motif back": lambda dim: MotifNeighborhoodBuilder([(-1,) + (0,) * (dim - 1)]),
    "class": lambda dim: SiteClassNeighborhoodBuilder({"A": MooreNbHoodBuilder(1, dim=dim)}),
    "other class": lambda dim: SiteClassNeighborhoodBuilder({"B": MooreNbHoodBuilder(1, dim=dim)}),
}


def _life_of(rule, cells, periodic, every):
    struct = _box(cells, periodic)
    state = SimulationState.from_struct(struct)
    for s in struct.site_ids:
        state.set_site_state(s, {OCC: "dead" if s % every else "alive"})
    return _run(SynchronousRunner(), state, GameOfLifeController(struct, rule), 2)


def _picture_of(size, colours, shown, cell):
    struct = PeriodicStructure.build_from(SquareGridLattice2D(), [size, size], [(0, 0)])
    state = SimulationState.from_struct(struct)
    for s in struct.site_ids:
        state.set_site_state(s, {OCC: shown[s % len(shown)]})
    cells = DiscreteCellArtist(dict(colours))
    artist = SquareGridArtist2D(struct, cells)
    return [cells.get_legend(state), artist.get_img(state, cell_size=cell).tobytes(),
            artist.get_img(state, cell_size=cell, label="x").tobytes()]


def _history_of(site, values, steps):
    state = SimulationState({SITES: {site: {"_site_id": site, "v": values[0]}}, GENERAL: {}})
    result = SimulationResult(state)
    for k in range(steps):
        result.add_step({site: {"v": values[k % len(values)]}})
    loaded = SimulationResult.from_dict(result.as_dict())
    analyzer = StateAnalyzer()
    return [history(result), history(loaded), look(result.last_step), look(result.first_step),
            [analyzer.get_sites_where_equal(result.get_step(k), {"v": v})
             for k in range(steps + 1) for v in values]]


def _atoms_of(lengths, pbc, species, x):
    pmg = PmgStructure(PmgLattice(np.diag(lengths), pbc=pbc), species,
                       [(0, 0, 0), (x, 0.25, 0.5)])
    struct, state = PymatgenStructureConverter().to_pylattica_structure_and_state(pmg)
    return [struct, state, PymatgenStructureConverter().to_pymatgen_structure(struct)]


def _setup_of(size, dim, radius, a, b):
    made = DiscreteGridSetup(PhaseSet([a, b]), dim=dim)
    return [made.setup_interface(size, a, b), made.setup_particle(size, radius, a, b),
            made.setup_coords(size, b, {a: [(0,) * dim]})]


FAMILIES = {
    "lattice": (_lattice_of, _LATTICES),
    "neighborhood": (_hood_of, [(h, *b) for h in HOODS for b in _BOXES]),
    "life": (_life_of, [
        (r, *b, k) for r in ("B3/S23", "B23/S3", "B2/S", "B3/S") for b in _BOXES[:5]
        for k in (2, 3)]),
    "picture": (_picture_of, [
        (n, c, p, cell) for n in (2, 3)
        for c in ((("P", (1, 2, 3)), ("Q", (4, 5, 6))), (("P", (4, 5, 6)), ("Q", (1, 2, 3))),
                  (("P", (1, 2, 3)),))
        for p in ("PQ", "QP", "P") for cell in (4, 5)]),
    "colours": (lambda *p: DiscreteCellArtist.build_color_map_from_phase_list(list(p)),
                [("P",), ("P", "Q"), ("Q", "P"), ("P", "Q", "R"), ("R", "Q", "P"),
                 tuple("ABCDEFGH"), tuple("HGFEDCBA"), ("PQ",), ("P", "R")]),
    "history": (_history_of, [
        (s, v, k) for s in (0, 1, -1) for v in ((1, 2), (2, 1), (True, 0), ("1", "2"), (1.0, 2))
        for k in (1, 3)]),
    "atoms": (_atoms_of, [
        (lengths, pbc, species, x)
        for lengths in ((3, 4, 5), (5, 4, 3)) for pbc in ((True,) * 3, (True, True, False))
        for species in (("Na", "Cl"), ("Cl", "Na"), ("Na", "Na")) for x in (0.5, 0.25)]),
    "setup": (_setup_of, [
        (n, d, r, *p) for n in (3, 4) for d in (2, 3) for r in (1, 1.5)
        for p in (("P", "Q"), ("Q", "P"))]),
}


class Family:
    """A family of objects of one kind, each made anew for every call."""

    def __init__(self, name):
        self.make, members = FAMILIES[name]
        self.ops = [("family", name, i) for i in range(len(members))]
        self.members = members

    def call(self, op):
        return ex.run_with(
            ex.Chooser(depth=0), lambda _: look(self.make(*copy.deepcopy(self.members[op[2]]))))


WORLDS = (0, 1)
MEMBERS = [op for name in FAMILIES for op in Family(name).ops]
ALL = [(name, i) for name in CALLS for i in WORLDS]


def call(worlds, op):
    name, i = op
    return ex.run_with(ex.Chooser(depth=0), lambda _: look(CALLS[name](worlds[i])))


def cases(tier):
    expect()
    out = [{"kind": "pairs", "first": list(op)} for op in ALL]
    for name in FAMILIES:
        for k in range(4):
            out.append({"kind": "family", "name": name, "part": k, "parts": 4})
    n = len(ALL)
    for k in range(8):
        out.append({"kind": "history", "order": 2, "part": k, "parts": 8})
    if tier == "thorough":
        for op in ALL:
            out.append({"kind": "triples", "first": list(op)})
        for k in range(n):
            out.append({"kind": "history", "order": 3, "part": k, "parts": n})
    return out


def alone(op):
    """What the call gives in a process in which nothing else was called."""
    if op[0] == "family":
        return Family(op[1]).call(op)
    worlds = [World(i) for i in WORLDS]
    return call(worlds, op)


def differing(before, after):
    return [k for k in before if before[k] != after[k]]


def _check(ctx, worlds, before, op, want, past):
    got = call(worlds, op)
    ctx.equal(got, want, "a call gives something else after other calls",
              call=op, after=past[-5:])
    ctx.step()


def _unchanged(ctx, worlds, before, past):
    now = [snapshot(w) for w in worlds]
    if now != before:
        ctx.fail("a call changed what it was given",
                 changed=[differing(b, a) for b, a in zip(before, now)], calls=past[-5:])


EXPECTED = {}  # call -> (what it gives, error)


def expect():
    """Every call in a process of its own."""
    if EXPECTED:
        return
    waiting, running = ALL + MEMBERS, {}
    while waiting or running:
        while waiting and len(running) < 8:
            op = waiting.pop()
            r, fd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                    folder = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH", "/tmp"))
                    os.chdir(folder)
                    signal.alarm(100)
                    try:
                        data = pickle.dumps((alone(op), None))
                    except Exception as e:
                        data = pickle.dumps((None, f"{op}: {type(e).__name__}: {e}"))
                    with os.fdopen(fd, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(fd)
            running[r] = (pid, op)
        r = next(iter(running))
        pid, op = running.pop(r)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        EXPECTED[op] = pickle.loads(data) if data else (None, f"{op}: the process died")


def expected(ctx):
    expect()
    for value, error in EXPECTED.values():
        ctx.check(error is None, f"a call fails: {error}")
    return {op: value for op, (value, _) in EXPECTED.items()}


def run(case, ctx):
    want = expected(ctx)
    if case["kind"] == "history":
        return _history(case, ctx, want)
    if case["kind"] == "family":
        return _family(case, ctx, want)
    first = tuple(case["first"])
    worlds = [World(i) for i in WORLDS]
    before = [snapshot(w) for w in worlds]
    if case["kind"] == "triples":
        for second in ALL:
            _branches(ctx, want, worlds, before, [first, second], ALL[::7])
        return
    _branches(ctx, want, worlds, before, [first], ALL)
    ctx.sample({"first": first, "gives": want[first]})


def _family(case, ctx, want):
    """Each member of a family after each other one."""
    family = Family(case["name"])
    past = []
    for a in family.ops[case["part"] :: case["parts"]]:
        for b in family.ops:
            for op in (a, b):
                ctx.at(members=[family.members[i] for *_, i in [*past[-3:], op]])
                ctx.equal(family.call(op), want[op],
                          "an object gives something else after others were used",
                          family=case["name"], member=family.members[op[2]])
                past.append(op)
            ctx.step(2)
            ctx.state((case["name"], a, b))
    ctx.trace()


def _branches(ctx, want, worlds, before, start, following):
    """start + [op] for each op, each in a fork of this process, in which only the objects
    have been made."""
    for op in following:
        ops = [*start, op]
        r, fd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    for k, one in enumerate(ops):
                        ctx.at(calls=ops[: k + 1])
                        _check(ctx, worlds, before, one, want[one], ops[:k])
                    _unchanged(ctx, worlds, before, ops)
                    data = b""
                except Exception as e:
                    message = getattr(e, "message", f"{type(e).__name__}: {e}")
                    data = pickle.dumps((message, plain(getattr(e, "info", {}))))
                with os.fdopen(fd, "wb") as f:
                    f.write(data)
                    f.flush()
            finally:
                os._exit(0)
        os.close(fd)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if data:
            message, info = pickle.loads(data)
            ctx.fail(message, calls=ops, **{k: v for k, v in info.items() if k != "calls"})
        ctx.check(status == 0, "the process died", calls=ops)
        ctx.step(len(ops))
        ctx.state(tuple(ops))
        ctx.trace()
        ctx.outcome(op)


def _history(case, ctx, want):
    """All pairs (or triples) of consecutive calls in long histories of the same objects:
    a round trip along all edges of the complete graph."""
    worlds = [World(i) for i in WORLDS]
    before = [snapshot(w) for w in worlds]
    n = len(ALL)
    if case["order"] == 2:
        # every pair (a, b) with a in this part: a b a b' a b'' ...
        firsts = ALL[case["part"] :: case["parts"]]
        sequence = [op for a in firsts for b in ALL for op in (a, b)]
    else:
        a = ALL[case["part"]]
        sequence = [op for b in ALL for c in ALL for op in (a, b, c)]
    past = []
    for k, op in enumerate(sequence):
        ctx.at(last_calls=past[-4:] + [op])
        _check(ctx, worlds, before, op, want[op], past)
        past.append(op)
        if k % 50 == 0:
            _unchanged(ctx, worlds, before, past)
    _unchanged(ctx, worlds, before, past)
    ctx.state(("history", case["part"], len(sequence), n))
    ctx.count("calls_in_long_histories", len(sequence))
    ctx.trace()
