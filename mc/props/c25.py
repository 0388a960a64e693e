"""Threads that run simulations at the same time do not disturb each other."""

import copy
import itertools
import os

import matplotlib
from PIL import Image, ImageSequence
from pymatgen.core.lattice import Lattice as PmgLattice
from pymatgen.core.structure import Structure as PmgStructure

from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import (
    BasicController,
    Lattice,
    PeriodicStructure,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
)
from pylattica.core.neighborhood_builders import (
    DistanceNeighborhoodBuilder,
    MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
)
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.models.game_of_life.controller import GameOfLifeController
from pylattica.models.growth.growth_controller import GrowthController
from pylattica.structures.square_grid import DiscreteGridSetup, MooreNbHoodBuilder
from pylattica.structures.square_grid.lattice import SquareGridLattice2D, SquareGridLattice3D
from pylattica.visualization import (
    DiscreteCellArtist,
    ResultArtist,
    SquareGridArtist2D,
    SquareGridArtist3D,
)

from .. import env, vpool
from .. import explore as ex
from ..rules import SITES, make_rule, start
from ..sut import RuleController, build_state, content, history
from ..threads import Threads

BOUNDS = (
    "two threads with one of 21 tasks each, on objects of their own or shared ones, under all "
    "interleavings with one preemption, which can come before any line of pylattica, the first "
    "two times that it is executed (quick) or always (thorough), and with two preemptions "
    "before the first executions of lines (for ten tasks, each with itself, and for pictures of "
    "solids: quick; for all: thorough)"
)
ASSUMPTIONS = [
    "a line of pylattica is executed at once; so is what it calls outside of pylattica",
    "threads change no object that another thread uses",
]


def torus(n):
    return PeriodicStructure.build_from(SquareGridLattice2D(), [n, n], {"A": [(0, 0)]})


def plain_sites(struct):
    return sorted((s["_site_id"], s["_site_class"], tuple(s["_location"].tolist()))
                  for s in struct.sites())


class Walk(BasicController):
    """Visits the sites in a fixed order."""

    def __init__(self, ids):
        self.ids = ids

    def get_random_site(self, state):
        return self.ids[0]

    def get_state_update(self, site_id, prev_state):
        v = prev_state.get_site_state(site_id)["v"]
        nxt = self.ids[(self.ids.index(site_id) + 1 + v) % len(self.ids)]
        return {SITES: {site_id: {"v": v + 1}, nxt: {"from": site_id}}}, [nxt]


# each task: what it uses (made before the threads start; it may be shared), and what it
# does; `i` tells the tasks of the two threads apart


def _states(i):
    ids = [0, 1] if i == 0 else [3, 0]
    return ids, build_state(start(ids, [1 + i, 2], {"total": i}))


def use_serial(i):
    ids, state = _states(i)
    return SynchronousRunner(), RuleController(("with_general", "own")[i], ids), state


def do_run(runner, controller, state):
    result = runner.run(state, controller, 2)
    return history(result), content(result.output), content(state)


def use_parallel(i):
    ids, state = _states(i)
    runner = SynchronousRunner(parallel=True, workers=2)
    return runner, RuleController(("own", "exchange")[i], ids), state


def use_async(i):
    ids, state = _states(i)
    return AsynchronousRunner(), Walk(ids), state


def _grid_state(struct, phases):
    state = SimulationState.from_struct(struct)
    for s in struct.site_ids:
        state.set_site_state(s, {OCC: phases[s % len(phases)]})
    return state


def use_life(i):
    struct = torus(2)
    state = _grid_state(struct, ["alive", "dead"] if i else ["alive", "alive", "dead"])
    variant = ("B13/S23", "B2/S4")[i]
    return SynchronousRunner(), GameOfLifeController(struct, variant), state


def use_growth(i):
    struct = torus(2)
    state = _grid_state(struct, ["P", "V", "P", "Q"] if i else ["V", "R", "R", "S"])
    controller = GrowthController(
        PhaseSet(["P", "Q", "R", "S"]), struct, background_phase="V",
    )
    return SynchronousRunner(parallel=True, workers=2), controller, state


def do_one_step(runner, controller, state):
    result = runner.run(state, controller, 1)
    return history(result), content(result.output)


def use_build(i):
    return SquareGridLattice2D(), [2, 1 + i], {"A": [(0, 0)], "B": [(0.5, 0.25)]}


def do_build(lattice, size, motif):
    struct = PeriodicStructure.build_from(lattice, size, motif)
    return plain_sites(struct), [struct.id_at(s[2]) for s in plain_sites(struct)], motif


def use_neighbors(i):
    builders = (MooreNbHoodBuilder(1), MotifNeighborhoodBuilder([(1, 0), (0, -1)]))
    return torus(2), builders[i]


def use_distances(i):
    return torus(2), DistanceNeighborhoodBuilder(1.0 + 0.2 * i)


def do_neighbors(struct, builder):
    hood = builder.get(struct)
    return [sorted(hood.neighbors_of(s)) for s in struct.site_ids], plain_sites(struct)


def use_lookup(i):
    struct = torus(2)
    return Simulation(_grid_state(struct, "PQR"), struct), [(0, 1), (3, -1), (0.5, 0), (1, i)]


def do_lookup(simulation, places):
    return [simulation.state_at(p) for p in places]


def _result(i):
    result = SimulationResult(build_state(start([0, 1], [i, 2], {"g": 0})))
    for k in range(3):
        result.add_step({SITES: {k % 2: {"v": k + 10 * i, OCC: "PQ"[k % 2]}},
                         "GENERAL": {"g": k}})
    return result


def use_steps(i):
    return (_result(i), 1 + i)


def do_steps(result, interval):
    out = [content(result.get_step(2))]
    result.load_steps(interval)
    out += [content(result.get_step(k)) for k in (3, 0, 1)]
    out += [content(s) for s in result.steps()]
    out.append(content(result.last_step))
    return out, len(result)


def use_files(i):
    struct = torus(1)
    return _result(i), Simulation(_grid_state(struct, "PQ"[i:]), struct), os.path.abspath(f"f{i}")


def do_files(result, simulation, path):
    path = f"{path}.{os.urandom(6).hex()}"
    result.to_file(path + ".json")
    simulation.to_file(path)
    loaded = SimulationResult.from_file(path + ".json")
    again = Simulation.from_file(path)
    os.unlink(path + ".json")
    os.unlink(path)
    return history(loaded), content(again.state), plain_sites(again.structure)


def use_phases(i):
    result = SimulationResult(build_state(
        {SITES: {0: {"_site_id": 0, OCC: "P"}, 1: {"_site_id": 1, OCC: "Q"}}, "GENERAL": {}}
    ))
    result.add_step({i: {OCC: "RS"[i]}})
    return (result,)


def do_phases(result):
    analyzer = DiscreteResultAnalyzer(result)
    return (
        sorted(analyzer.all_phases()),
        [[analyzer.phase_fraction_at(k, p) for k in (0, 1)] for p in "PQRS"],
        sorted(analyzer.final_phase_fractions().items()),
    )


def _coloured(i):
    struct = torus(2)
    result = SimulationResult(_grid_state(struct, "PQ" if i else "QQP"))
    result.add_step({0: {OCC: "PQ"[i]}, 3: {OCC: "QP"[i]}})
    colors = {"P": (250, 10 * i, 0), "Q": (0, 200, 30)}
    return struct, result, DiscreteCellArtist(colors)


def use_picture(i):
    struct, result, cells = _coloured(i)
    return SquareGridArtist2D(struct, cells), result.get_step(1)


def do_picture(artist, state):
    img = artist.get_img(state, cell_size=3, label="x")
    return img.size, img.tobytes()


def use_solid(i):
    struct = PeriodicStructure.build_from(SquareGridLattice3D(), [1, 1, 1], {"A": [(0, 0, 0)]})
    cells = DiscreteCellArtist({"P": (250, 10 * i, 0), "Q": (0, 200, 30)})
    return SquareGridArtist3D(struct, cells), _grid_state(struct, "PQ"[i:])


def do_solid(artist, state):
    matplotlib.rcParams["savefig.dpi"] = 10
    img = artist.get_img(state)
    return img.size, img.tobytes()


def use_gif(i):
    struct, result, cells = _coloured(i)
    return ResultArtist(SquareGridArtist2D(struct, cells), result), os.path.abspath(f"g{i}")


def do_gif(artist, path):
    path = f"{path}.{os.urandom(6).hex()}.gif"
    artist.to_gif(path, cell_size=9)
    with Image.open(path) as img:
        out = [f.convert("RGB").tobytes() for f in ImageSequence.Iterator(img)]
    os.unlink(path)
    return out


def use_lattice(i):
    return Lattice([[2.0, 0.5], [0.0 + i, 1.5]], (True, i == 0)), [(0.3, 0.2), (-1.5, 4.0)]


def do_lattice(lattice, points):
    out = []
    for p in points:
        out.append(lattice.get_fractional_coords(p).tolist())
        out.append(lattice.get_periodized_cartesian_coords(p).tolist())
        out.append(lattice.get_cartesian_coords(p).tolist())
    out.append(float(lattice.cartesian_periodic_distance(*points)))
    return out, lattice.get_scaled_lattice([2, 3]).as_dict()["vectors"]


def use_state(i):
    ids, state = _states(i)
    return (state,)


def do_state(state):
    mine = state.copy()
    mine.batch_update({SITES: {0: {"v": 9, "w": 1}}, "GENERAL": {"total": 7}})
    mine.set_site_state(5, {"v": 1})
    loaded = SimulationState.from_dict(copy.deepcopy(mine.as_dict()))
    return content(mine), content(loaded), content(state), mine == loaded, mine == state


def use_search(i):
    struct = PeriodicStructure.build_from(
        SquareGridLattice2D(), [2, 1], {"A": [(0, 0)], "B": [(0.5, 0.5)]})
    return StateAnalyzer(struct), _grid_state(struct, "PQR" if i else "QP"), "AB"[i]


def do_search(analyzer, state, site_class):
    steps = DiscreteStepAnalyzer()
    return (
        sorted(analyzer.get_sites_where_equal(state, {OCC: "P"}, site_class)),
        analyzer.get_site_count(state, site_class, [lambda s: s[OCC] != "P"]),
        sorted(steps.phases_present(state)),
        [(steps.cell_count(state, p), steps.cell_fraction(state, p)) for p in "PQ"],
    )


def use_setup(i):
    return DiscreteGridSetup(PhaseSet(["P", "Q"])), "PQ" if i else "QP", 2 + i


def do_setup(setup, phases, size):
    out = []
    for made in (setup.setup_interface(size, *phases),
                 setup.setup_coords(size, phases[0], {phases[1]: [(0, 1)]})):
        out.append((content(made.state), plain_sites(made.structure)))
    return out


def use_hoods(i):
    struct = torus(2)
    hood = SiteClassNeighborhoodBuilder({"A": DistanceNeighborhoodBuilder(1.2)}).get(struct)
    controller = GameOfLifeController(struct, ("B3/S23", "B1/S2")[i])
    state = _grid_state(struct, ["alive", "dead", "dead"][i:])
    controller.pre_run(state)
    return struct, hood, controller, state


def do_hoods(struct, hood, controller, state):
    return [
        (sorted(hood.neighbors_of(s)), controller.get_state_update(s, state))
        for s in struct.site_ids
    ]


def use_convert(i):
    return PymatgenStructureConverter(), PmgStructure(
        PmgLattice([[3, 0, 0], [0, 4 + i, 0], [0, 0, 5]]), ["Na", "Cl"],
        [(0, 0, 0), (0.5, 0.25, 0.5)],
    )


def do_convert(converter, atoms):
    struct, state = converter.to_pylattica_structure_and_state(atoms)
    back = converter.to_pymatgen_structure(struct)
    return (
        [(s["_site_class"], s["_location"].tolist()) for s in struct.sites()], content(state),
        [(s.species_string, [round(float(c), 6) for c in s.frac_coords]) for s in back],
    )


TASKS = {
    "serial": (use_serial, do_run),
    "parallel": (use_parallel, do_run),
    "asynchronous": (use_async, do_run),
    "life": (use_life, do_one_step),
    "growth": (use_growth, do_one_step),
    "build": (use_build, do_build),
    "neighbors": (use_neighbors, do_neighbors),
    "distances": (use_distances, do_neighbors),
    "lookup": (use_lookup, do_lookup),
    "steps": (use_steps, do_steps),
    "files": (use_files, do_files),
    "phases": (use_phases, do_phases),
    "picture": (use_picture, do_picture),
    "gif": (use_gif, do_gif),
    "solid": (use_solid, do_solid),
    "lattice": (use_lattice, do_lattice),
    "state": (use_state, do_state),
    "search": (use_search, do_search),
    "setup": (use_setup, do_setup),
    "hoods": (use_hoods, do_hoods),
    "convert": (use_convert, do_convert),
}


# with few enough lines for two preemptions in a check of every change
SHORT = ("serial", "asynchronous", "distances", "lookup", "steps", "picture", "lattice", "state",
         "search", "hoods")


def cases(tier):
    out = []
    for shared in (False, True):
        for a, b in itertools.product(TASKS, repeat=2):
            if shared and a != b:
                continue
            if "solid" in (a, b) and not {a, b} <= {"solid", "picture"}:
                # they take long, and share nothing with other tasks but what pictures share
                continue
            one = {"tasks": [a, b], "shared": shared}
            if a == b == "solid" and not shared:
                # what is current for matplotlib is another thread's only after two switches
                for k in range(4):
                    out.append({**one, "deviations": 2, "repeats": 1,
                                "within": "visualization", "part": (k, 4)})
            if tier == "quick":
                out.append({**one, "deviations": 1, "repeats": 2})
                if a == b and a in SHORT:
                    out.append({**one, "deviations": 2, "repeats": 1})
            else:
                out.append({**one, "deviations": 1, "repeats": None})
                out.append({**one, "deviations": 2, "repeats": 1})
    return out


def run(case, ctx):
    a, b = case["tasks"]

    def thunks(shared):
        used = [TASKS[a][0](0)]
        used.append(used[0] if shared else TASKS[b][0](1))
        return [
            lambda i=i, t=t: TASKS[t][1](*used[i]) for i, t in enumerate((a, b))
        ]

    with vpool.controlled(cpus=2):
        # alone, twice: the second time, everything is loaded that is loaded when first used
        for _ in range(2):
            expected = []
            for i in range(2):
                expected.append(ex.run_with(ex.Chooser(), lambda _: thunks(case["shared"])[i]()))

        def body(chooser):
            vpool.ControlledPool.pools.clear()
            vpool.ControlledPool.schedule.clear()
            threads = Threads(chooser, case["deviations"], case["repeats"],
                              case.get("within", ""), case.get("part", (0, 1)))
            # other draws are not what is explored here, and no outcome depends on them
            env.set_chooser(None)
            return threads.run(thunks(case["shared"])), threads

        def check(res, chooser):
            outcomes, threads = res
            for i, (value, error) in enumerate(outcomes):
                info = {"tasks": case["tasks"], "thread": i, "switches": threads.switches}
                ctx.check(error is None, f"a thread failed because of another one: {error!r}",
                          **info)
                ctx.equal(value, expected[i], "a thread came to another outcome than alone",
                          **info)
            ctx.step(threads.points)
            ctx.trace()
            ctx.state((a, b, case["shared"], threads.switches))
            ctx.outcome((a, b, tuple(threads.switches[:1])))

        out = ex.explore(
            body, check, deviations=case["deviations"], ctx=ctx, only=("thread",),
        )
    ctx.count("schedules", out.runs)
    ctx.sample({"tasks": case["tasks"], "schedules": out.runs})
