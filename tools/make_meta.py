"""Writes properties.jsonl and MANIFEST.json from the one description below."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pylattica/"


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return {
        "id": pid, "title": title, "statement": statement, "over": over, "text": text,
        "why": why, "files": [S + f for f in files],
        "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
        "observe": observe, "technique": technique, "note": note,
    }


EXPLICIT = "explicit-state model checking of the real code: "
STATELESS = "stateless model checking of the real code: "

PROPS = [
    prop(
        "C01", "Parallel synchronous runs give exactly the history of the serial run",
        "For a deterministic controller, a synchronous run in parallel yields the same "
        "history, step by step, as the serial run of the same simulation, whatever the "
        "number of workers and whichever worker executes which batch at which step. Every "
        "step applies the controller to the whole state of the previous step, and all "
        "updates of all batches take effect.",
        ["schedules", "inputs", "configurations"],
        "every assignment of batches to workers over all steps, every number of workers, "
        "every initial state and controller",
        "Tests run a pool once, on the schedule the machine happens to produce; a worker "
        "that keeps an outdated state shows only under another assignment of batches.",
        ["core/runner/synchronous_runner.py", "core/runner/common.py",
         "core/runner/base_runner.py"],
        [("batches of sites go to a pool of forked workers, updates are merged in the parent",
          "core/runner/synchronous_runner.py: SynchronousRunner._run"),
         ("merge of updates", "core/runner/common.py: merge_updates")],
        ["SimulationResult of SynchronousRunner(parallel=True).run(...)"],
        STATELESS + "a controlled pool of real forked workers, all assignments of batches to "
        "workers enumerated, compared with the serial run and an independent interpreter",
        "Exhaustive over the assignments of batches to workers within the bounds in the "
        "evidence; trusts that forked workers share no memory, and the stand-in for "
        "multiprocessing.Pool, which real pools confirm on the same cases.",
    ),
    prop(
        "C02", "A synchronous step applies the controller to every site once, at once",
        "Each synchronous step asks the controller about every site exactly once, each time "
        "with the complete state as it was before that step, and then applies all updates "
        "together; sites and keys that no update mentions keep their values. The result "
        "holds the initial state followed by one state per step, and the run leaves the "
        "caller's initial state unchanged.",
        ["inputs", "programs", "histories"],
        "every initial state, every form of update (own state, several sites, general "
        "state, none), every controller, any number of steps",
        "Tests run one or two controllers on a few states; that a visit sees an update of "
        "the same step depends on the state, the form of the update and the order of sites.",
        ["core/runner/synchronous_runner.py", "core/runner/base_runner.py",
         "core/runner/common.py", "core/simulation_state.py"],
        [("updates collected before they are applied",
          "core/runner/synchronous_runner.py: _take_step"),
         ("forms of updates", "core/runner/common.py: merge_updates"),
         ("initial state copied", "core/runner/base_runner.py: Runner.run")],
        ["SimulationResult, the states passed to the controller"],
        EXPLICIT + "all initial states and all combinations of update forms within bounds, "
        "against an independent interpreter of controllers",
        "Exhaustive within the bounds in the evidence, for pure controllers; the runs are of "
        "the real code, so nothing has to be carried over from a model.",
    ),
    prop(
        "C03", "Asynchronous runs serve sites first come first served, one per step",
        "An asynchronous run visits one site per step: sites that the controller asks for "
        "are served in the order in which they were asked for, and when none is left, a "
        "site of the simulation is drawn, or asked of the controller if it can say. Each "
        "step applies the updates of that visit at once, so that the next visit sees them, "
        "and the result records one step per visit, in order.",
        ["schedules", "histories", "inputs"],
        "every sequence of responses of the controller, every outcome of the random draws",
        "Tests follow one sequence of draws; the order of the queue only matters with "
        "several requests outstanding.",
        ["core/runner/asynchronous_runner.py", "core/runner/common.py",
         "core/runner/base_runner.py", "core/basic_controller.py"],
        [("queue of sites", "core/runner/asynchronous_runner.py: AsynchronousRunner._run"),
         ("random site", "core/basic_controller.py: BasicController.get_random_site")],
        ["sites visited, SimulationResult"],
        STATELESS + "all responses of the controller and all outcomes of random draws, "
        "against a queue model",
        "Exhaustive within the bounds in the evidence; random draws are explored by "
        "replacing the generators behind random and numpy.random.",
    ),
    prop(
        "C04", "Simulation states behave as a map of maps, and copies are independent",
        "After any sequence of updates, a simulation state reports exactly what an ordinary "
        "map from sites to maps of values, beside one map of general values, would hold: "
        "updates merge key by key into the site they name and touch nothing else. Copies of "
        "a state, and states made from saved ones, share nothing that later updates of "
        "either could change.",
        ["histories", "inputs"],
        "every sequence of operations (single, batch, general and site-only updates, copies, "
        "comparisons) from every starting state",
        "Tests check single operations; losing a key or sharing between copies takes "
        "sequences of several.",
        ["core/simulation_state.py", "core/constants.py"],
        [("updates merged per site", "core/simulation_state.py: set_site_state, batch_update"),
         ("copies", "core/simulation_state.py: copy")],
        ["get_site_state, get_general_state, all_site_states, site_ids, size, as_dict"],
        EXPLICIT + "all sequences of operations up to a depth, in lockstep with a reference "
        "model",
        "Exhaustive over sequences within the bounds in the evidence.",
    ),
    prop(
        "C05", "A result tells the same history through every access path and order",
        "A simulation result reports, for each step, the state obtained by applying the "
        "recorded updates in order to the initial state, no matter whether one step is "
        "asked for, all steps are iterated over, the first or last one is read, or steps "
        "were loaded ahead at any interval, and no matter in which order this happens. "
        "Reading never changes the history, nor does changing what was read.",
        ["histories", "inputs"],
        "every sequence of adding steps, loading at any interval, reading in any order and "
        "changing what was read",
        "Tests read one result in one order; stale or shared stored steps show only after "
        "particular sequences of loading, adding and reading.",
        ["core/simulation_result.py", "core/simulation_state.py"],
        [("stored steps", "core/simulation_result.py: load_steps, get_step"),
         ("replay of updates", "core/simulation_result.py: steps, get_step")],
        ["get_step, steps, first_step, last_step, output, len"],
        EXPLICIT + "all sequences of operations up to a depth, in lockstep with a reference "
        "model of the history",
        "Exhaustive over sequences within the bounds in the evidence.",
    ),
    prop(
        "C06", "Saving and loading results and states loses nothing",
        "A simulation result or state that is turned into a dictionary, JSON text or a file "
        "and loaded from it again is equal to the original: same number of steps, the same "
        "state at every step, with the same site identifiers and values. It can be "
        "continued, saved and loaded again like the original, and neither affects the other "
        "afterwards.",
        ["histories", "inputs", "programs"],
        "every history of updates of every form, results of every kind of runner, every way "
        "of saving, once and twice",
        "Tests save one small history; keys that become text, general updates and empty "
        "steps each need a particular history.",
        ["core/simulation_result.py", "core/simulation_state.py"],
        [("identifiers restored", "core/simulation_result.py: from_dict"),
         ("files", "core/simulation_result.py: to_file, from_file")],
        ["as_dict, from_dict, to_file, from_file of SimulationResult and SimulationState"],
        EXPLICIT + "all histories up to a depth, through every way of saving, compared step "
        "by step",
        "Exhaustive within the bounds in the evidence, for values that JSON can hold.",
    ),
    prop(
        "C07", "Saving and loading simulations, structures and lattices loses nothing",
        "A simulation, structure or lattice that is saved and loaded has the same lattice "
        "vectors and periodicity, and the same sites with their identifiers, classes, "
        "locations and states. Looking up locations, measuring distances, finding "
        "neighbors and adding further sites work as in the original, no matter in which "
        "order the saved form lists its entries.",
        ["inputs", "configurations", "histories"],
        "every lattice, choice of periodic axes, motif and size, every order of the saved "
        "entries, every way of saving",
        "Tests save one square grid.",
        ["core/simulation.py", "core/periodic_structure.py", "core/lattice.py",
         "core/simulation_state.py"],
        [("sites restored", "core/periodic_structure.py: from_dict"),
         ("lattice restored", "core/lattice.py: as_dict, from_dict"),
         ("files", "core/simulation.py: to_file, from_file")],
        ["as_dict, from_dict, to_file, from_file, state_at, site_at, add_site"],
        EXPLICIT + "all combinations of lattices, periodicities, motifs, sizes, ways of "
        "saving and orders of entries, compared with the original and with exact geometry",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C08", "Coordinate conversion and periodization keep the point they denote",
        "Converting between fractional and Cartesian coordinates and back gives the same "
        "point, for every lattice in every dimension. Periodizing a point moves it by a "
        "whole number of lattice vectors along periodic axes only, so that its coordinate "
        "along each periodic axis lies within the cell; scaling a lattice multiplies its "
        "vectors and keeps its periodicity.",
        ["inputs", "configurations"],
        "every lattice (oblique and left-handed ones too), choice of periodic axes and point",
        "Tests use a few points of a few, mostly orthogonal, lattices.",
        ["core/lattice.py", "core/coordinate_utils.py"],
        [("change of basis", "core/lattice.py: get_cartesian_coords, get_fractional_coords"),
         ("periodization", "core/lattice.py: get_periodized_cartesian_coords"),
         ("boxes of points", "core/coordinate_utils.py: get_points_in_box")],
        ["the conversion functions of Lattice, get_points_in_box"],
        EXPLICIT + "bounded-exhaustive enumeration of lattices, periodicities and points "
        "against exact integer arithmetic of lattice vectors",
        "Exhaustive within the bounds in the evidence; points on a cell boundary up to "
        "floating point noise may go to either face.",
    ),
    prop(
        "C09", "Periodic distances are distances to the closest periodic image",
        "The periodic distance between two points is the smallest Euclidean distance between "
        "one of them and any image of the other along the periodic axes, for every lattice "
        "however oblique. It is symmetric, does not change if either point is replaced by an "
        "image, and reduces to the ordinary distance along axes that are not periodic.",
        ["inputs", "configurations"],
        "every lattice, choice of periodic axes and pair of points",
        "Tests use orthogonal cells, in which the closest image is always the one found by "
        "rounding each coordinate.",
        ["core/lattice.py"],
        [("closest image", "core/lattice.py: cartesian_periodic_distance")],
        ["Lattice.cartesian_periodic_distance"],
        EXPLICIT + "bounded-exhaustive enumeration of lattices, periodicities and pairs of "
        "points against a search over all images that can matter",
        "Exhaustive within the bounds in the evidence; distances compared up to rounding.",
    ),
    prop(
        "C10", "Tiling puts one site at every place, found at all its periodic images",
        "Building a structure from a lattice, a size and a motif gives exactly one site of "
        "the right class at each position of the motif in each cell, whether the motif is "
        "given in fractional or Cartesian coordinates, with identifiers 0, 1, 2 and so on. "
        "Each site is found by its location and by all periodic images of it, and nothing "
        "is found elsewhere.",
        ["inputs", "configurations"],
        "every lattice, choice of periodic axes, size, motif and image",
        "Tests build square grids and look up a handful of locations; oblique cells, "
        "negative coordinates and locations that round badly need enumeration.",
        ["core/periodic_structure.py", "core/lattice.py", "core/structure_builder.py",
         "structures/square_grid/structure_builders.py",
         "structures/honeycomb/structure_builders.py"],
        [("tiling", "core/periodic_structure.py: PeriodicStructure.build_from"),
         ("lookup by rounded periodized location", "core/periodic_structure.py: site_at")],
        ["sites, site_ids, site_at, site_location, site_class"],
        EXPLICIT + "bounded-exhaustive enumeration of lattices, periodicities, sizes, motifs "
        "and images against an independent tiling",
        "Exhaustive within the bounds in the evidence; lookups are judged up to the rounding "
        "of locations.",
    ),
    prop(
        "C11", "No two sites of a structure are ever at the same place",
        "Whatever sites are added in whichever order, a site whose location, up to periodic "
        "images and rounding, is that of a site already there is refused and changes "
        "nothing, and any other site is accepted. Identifiers count up from 0 without gaps, "
        "and the sites of each class and of the whole structure are exactly those accepted.",
        ["histories", "inputs", "configurations"],
        "every sequence of additions of locations inside and outside of the cell, of images "
        "and of locations displaced by floating point noise",
        "Tests add a duplicate once; duplicates across a periodic boundary, after noise or "
        "refused additions need sequences.",
        ["core/periodic_structure.py", "core/lattice.py"],
        [("refusal of duplicates", "core/periodic_structure.py: add_site"),
         ("lookup", "core/periodic_structure.py: site_at")],
        ["add_site, site_ids, sites, site_at"],
        EXPLICIT + "all sequences of additions up to a depth, in lockstep with a reference "
        "model",
        "Exhaustive over sequences within the bounds in the evidence.",
    ),
    prop(
        "C12", "Distance neighborhoods hold exactly the sites within their range",
        "The neighbors of a site in a distance or annular neighborhood are exactly the other "
        "sites whose closest periodic image lies within the range, its ends excluded, each "
        "once, weighted by that distance, in every structure however small or oblique its cell. The relation "
        "is symmetric, and a neighborhood restricted to a site class holds the same neighbors for "
        "the sites of that class and none for others.",
        ["inputs", "configurations"],
        "every lattice, choice of periodic axes, size, motif, range and site",
        "Tests check one grid and one range.",
        ["core/neighborhood_builders.py", "core/neighborhoods.py", "core/lattice.py",
         "structures/honeycomb/neighborhoods.py"],
        [("pairs within range", "core/neighborhood_builders.py: DistanceNeighborhoodBuilder, "
          "AnnularNeighborhoodBuilder"),
         ("graph of neighbors", "core/neighborhoods.py: Neighborhood")],
        ["Neighborhood.neighbors_of with and without weights"],
        EXPLICIT + "bounded-exhaustive enumeration of structures and ranges against a search "
        "over all images",
        "Exhaustive within the bounds in the evidence; ranges end between distances that "
        "occur.",
    ),
    prop(
        "C13", "Motif neighborhoods hold exactly the sites at the offsets of the motif",
        "The neighbors of a site in a motif neighborhood are exactly the other sites found "
        "at its location plus one of the offsets, across periodic boundaries and not across "
        "others, each once, and weighted by the length of the offset. In particular Moore "
        "and von Neumann neighborhoods of every size on grids of every shape are the cells "
        "within that Chebyshev and Manhattan distance.",
        ["inputs", "configurations"],
        "every grid shape, neighborhood size and choice of periodic axes, and every motif on "
        "other lattices",
        "Tests check a few sites of a few grids, all periodic, on which missing sites and "
        "small cells do not occur.",
        ["core/neighborhood_builders.py", "core/distance_map.py",
         "structures/square_grid/neighborhoods.py"],
        [("offsets looked up", "core/neighborhood_builders.py: MotifNeighborhoodBuilder"),
         ("offsets of Moore and von Neumann",
          "structures/square_grid/neighborhoods.py"),
         ("lengths", "core/distance_map.py")],
        ["Neighborhood.neighbors_of with and without weights"],
        EXPLICIT + "bounded-exhaustive enumeration of grids, periodicities and motifs "
        "against modular arithmetic of cells and a search over all images",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C14", "Stochastic and per-class neighborhoods give the neighbors of a builder",
        "A stochastic neighborhood answers each request with the neighbors that one of its "
        "constituents gives for that site, every constituent can be the one, each request "
        "draws anew, and pseudohexagonal and pseudopentagonal neighborhoods are those of "
        "their documented sets of offsets. A neighborhood by site class answers for each "
        "site with the neighborhood given for the class of that site, and with no neighbors "
        "for the sites of other classes.",
        ["schedules", "inputs", "configurations"],
        "every outcome of the random choices, every site, every combination of builders and "
        "classes",
        "Tests draw once; which constituent is drawn is left to chance.",
        ["core/neighborhood_builders.py", "core/neighborhoods.py",
         "structures/square_grid/neighborhoods.py"],
        [("random constituent", "core/neighborhoods.py: StochasticNeighborhood"),
         ("builders per class", "core/neighborhood_builders.py: SiteClassNeighborhoodBuilder"),
         ("sets of offsets", "structures/square_grid/neighborhoods.py")],
        ["neighbors_of of each kind of neighborhood"],
        STATELESS + "all outcomes of the random choices of two requests in a row, for all "
        "sites and combinations of builders",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C15", "Game of life controllers apply the rule that their variant denotes",
        "A cell that is dead comes alive exactly if its number of living Moore neighbors is "
        "among those of the birth rule, and one that is alive stays so exactly if that number is "
        "among those of the survival rule, for every rule written as birth and survival "
        "digits and for the named variants. This holds for every pattern on every grid, "
        "across periodic boundaries.",
        ["inputs", "programs"],
        "every rule, every pattern, over several steps",
        "Tests run one pattern of one variant.",
        ["models/game_of_life/controller.py", "structures/square_grid/neighborhoods.py"],
        [("rule parsed", "models/game_of_life/controller.py: GameOfLifeController"),
         ("neighbors counted", "models/game_of_life/controller.py: get_state_update")],
        ["SimulationResult of runs with the controllers"],
        EXPLICIT + "all states of small tori and all rules, against an independent cellular "
        "automaton",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C16", "Growth fills background cells with a prevalent phase around them only",
        "In a growth step a background cell with neighbors of other phases becomes one of "
        "the phases most frequent among those neighbors, a background cell without them "
        "stays background, and every other cell keeps its phase. The growth setup grows "
        "from the nuclei it places until no background is left, so that every cell ends "
        "with a phase that was asked for, that of one of the nuclei closest to it.",
        ["schedules", "inputs", "programs"],
        "every arrangement of phases, every neighborhood, every outcome of the random "
        "placement of nuclei",
        "Tests grow one random arrangement and look at little of the outcome.",
        ["models/growth/growth_controller.py", "structures/square_grid/growth_setup.py",
         "structures/square_grid/grid_setup.py"],
        [("most frequent phase", "models/growth/growth_controller.py: get_state_update"),
         ("nucleation and growth", "structures/square_grid/growth_setup.py: GrowthSetup.grow")],
        ["SimulationResult of runs with GrowthController, Simulation made by GrowthSetup"],
        EXPLICIT + "all states of small grids, and all outcomes of the random placements, "
        "against an independent growth rule",
        "Exhaustive within the bounds in the evidence; ties may go to any of the phases.",
    ),
    prop(
        "C17", "Setups put each phase exactly where their parameters say",
        "Grids that are set up as uniform, with an interface, with a particle of a given "
        "radius and center, or from given coordinates have each phase in exactly the cells "
        "that the geometry of the request contains, in 2 and 3 dimensions. Every cell has "
        "one phase, and the structure has the requested number of cells along every axis.",
        ["inputs", "configurations"],
        "every size, radius, center and assignment of coordinates",
        "Tests check one size of each setup.",
        ["structures/square_grid/grid_setup.py", "structures/square_grid/structure_builders.py"],
        [("cells within the shape", "structures/square_grid/grid_setup.py: setup_particle, "
          "setup_interface, setup_coords, setup_solid_phase")],
        ["Simulation made by DiscreteGridSetup"],
        EXPLICIT + "bounded-exhaustive enumeration of parameters against an independent "
        "geometry",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C18", "Random setups place what was asked for, for every outcome of the draws",
        "For every outcome of the random draws, random setups place the requested numbers "
        "of nuclei in distinct cells, at least the requested buffer apart, in the desired "
        "ratio of phases (as close as whole numbers allow), leaving every other cell at the "
        "background. They give up with an error rather than place less, noise gives every "
        "cell one of the phases asked for, and every placement that fits the request can "
        "occur.",
        ["schedules", "inputs", "configurations"],
        "every outcome of the random draws, every size, number, buffer and ratio",
        "Tests draw once and count.",
        ["structures/square_grid/grid_setup.py"],
        [("retry until apart", "structures/square_grid/grid_setup.py: setup_random_sites"),
         ("ratios", "structures/square_grid/grid_setup.py: setup_random_sites"),
         ("noise", "structures/square_grid/grid_setup.py: setup_noise")],
        ["Simulation made by DiscreteGridSetup"],
        STATELESS + "all outcomes of the random draws within bounds, against the request, "
        "and the set of outcomes against the set of placements that fit it",
        "Exhaustive over the outcomes of the first draws as in the evidence; assumes draws "
        "are made with random or numpy.random.",
    ),
    prop(
        "C19", "Analyzers report exactly what states and results hold",
        "Analyzers of states select and count exactly the sites whose class and state "
        "satisfy all criteria, and report the phases present, their counts, fractions and "
        "ratios as counting the sites gives them. Analyzers of results report for each step "
        "and phase what the state at that step holds, include every phase that ever occurs, "
        "plot those values, and do not change what they analyze.",
        ["inputs", "histories"],
        "every state, combination of criteria and history of updates",
        "Tests analyze one state with one criterion, and plot without looking.",
        ["core/analyzer.py", "discrete/discrete_step_analyzer.py",
         "discrete/discrete_state_result_analyzer.py", "discrete/phase_set.py"],
        [("criteria", "core/analyzer.py: StateAnalyzer.get_sites"),
         ("counts", "discrete/discrete_step_analyzer.py"),
         ("histories", "discrete/discrete_state_result_analyzer.py")],
        ["every method of the analyzers; the data of the plots"],
        EXPLICIT + "all states and histories up to a bound against direct counting",
        "Exhaustive within the bounds in the evidence.",
    ),
    prop(
        "C20", "Conversion to and from pymatgen keeps lattice, periodicity, sites, species",
        "Converting a lattice or structure from or to pymatgen keeps its lattice vectors and "
        "its periodicity per axis, and gives exactly one site of the same species at each "
        "position, up to periodic images. Converting there and back again gives the same "
        "structure.",
        ["inputs", "configurations"],
        "every lattice, choice of periodic axes and arrangement of species",
        "Tests convert one or two structures that are periodic along all axes.",
        ["atomic/pymatgen_struct_converter.py", "core/lattice.py",
         "core/periodic_structure.py"],
        [("conversion", "atomic/pymatgen_struct_converter.py")],
        ["PymatgenStructureConverter in both directions"],
        EXPLICIT + "bounded-exhaustive enumeration of lattices, periodicities and motifs, "
        "matched site by site",
        "Exhaustive within the bounds in the evidence; trusts pymatgen.",
    ),
    prop(
        "C21", "Pictures show each site in the colour of its state, frame by frame",
        "A picture of a grid shows at the place of each site the colour of its state, and a "
        "legend with the colour of each label; phases have distinct colours as long as the "
        "palette lasts, and unknown ones are black. An animation has one frame per "
        "requested step, in order, showing the state of that step, whichever worker draws "
        "which frame.",
        ["inputs", "schedules", "histories"],
        "every state of a grid, cell size and palette; every assignment of frames to workers",
        "Tests check that a picture was made, or one picture; the colours and places of all "
        "states and the order of frames need enumeration.",
        ["visualization/square_grid_artist_2D.py", "visualization/square_grid_artist_3D.py",
         "visualization/cell_artist.py", "visualization/result_artist.py",
         "visualization/colors.py", "visualization/helpers.py",
         "visualization/structure_artist.py"],
        [("cells drawn", "visualization/square_grid_artist_2D.py, "
          "visualization/square_grid_artist_3D.py: _draw_image"),
         ("frames drawn by a pool", "visualization/result_artist.py: _get_images"),
         ("palette", "visualization/colors.py: COLORS")],
        ["images returned, saved, shown; voxels drawn"],
        STATELESS + "all states of small grids, compared pixel by pixel with an independent "
        "rendering, and all assignments of frames to workers of a controlled pool",
        "Exhaustive within the bounds in the evidence; trusts Pillow and matplotlib to draw "
        "what they are told.",
    ),
    prop(
        "C22", "Every module can be imported, in any order, without side effects",
        "Every module of the package can be imported on its own and after any other, and "
        "then offers its documented names, which denote the same things wherever they are "
        "exported. Importing prints nothing, writes nothing and leaves the random number "
        "generators, the environment and the settings of the process as they were.",
        ["configurations", "histories"],
        "every module first, every ordered pair of modules",
        "Tests import modules in the one order in which they are collected, which hides "
        "circular imports.",
        ["__init__.py", "core/__init__.py", "models/growth/growth_controller.py",
         "structures/square_grid/__init__.py"],
        [("order of imports", "*/__init__.py")],
        ["import statements in fresh processes"],
        STATELESS + "every order of imports within bounds, each in a process of its own",
        "Exhaustive over ordered pairs of modules (triples of packages in the thorough tier).",
    ),
    prop(
        "C23", "A failing controller or artist: the error comes out, and nothing else remains",
        "If the controller fails at any of its calls during a run, serial, asynchronous or "
        "parallel, the very error comes out of the run instead of a result, nothing of the "
        "caller (the initial state, its structures) has changed, and runs that follow give "
        "what they would have given without the failure. If an artist fails at any frame of "
        "an animation, the error comes out, no worker and no file is left behind, files "
        "which were there keep their contents, and animations that follow are complete.",
        ["crash_points", "schedules", "inputs"],
        "every call of the controller and every frame at which an error of any kind can "
        "occur, every assignment of batches and frames to workers",
        "Tests do not inject errors, and what a failure leaves behind depends on the call at "
        "which it strikes and on the worker which it strikes.",
        ["core/runner/synchronous_runner.py", "core/runner/asynchronous_runner.py",
         "core/runner/base_runner.py", "visualization/result_artist.py"],
        [("calls of the controller", "core/runner/*.py"),
         ("queue of sites, drained by exceptions",
          "core/runner/asynchronous_runner.py: AsynchronousRunner._run"),
         ("frames drawn by a pool", "visualization/result_artist.py: to_gif, _get_images")],
        ["exceptions, states, directories, processes after a failure"],
        STATELESS + "fault injection at every call of the controller and at every frame, "
        "under all assignments of batches to the workers of a controlled pool",
        "Exhaustive over the points of failure of the runs within the bounds in the evidence.",
    ),
    prop(
        "C24", "Asking and building change nothing: results depend on the arguments only",
        "Asking for sites, neighbors, distances, counts or images, building structures, "
        "neighborhoods or grids, converting, saving and running change none of the objects "
        "that are asked or passed in, and nothing of the process: what a call gives is the "
        "same in a fresh process and after any other calls with the same or other objects, "
        "and what was given before stays as it was.",
        ["histories", "configurations"],
        "every call after every other call, on the same and on other objects",
        "Tests build their objects afresh and look at the first answer; caches, default "
        "arguments, class attributes and results that alias internals show in the second.",
        ["core/lattice.py", "core/periodic_structure.py", "core/neighborhood_builders.py",
         "core/simulation_state.py", "core/simulation_result.py",
         "structures/square_grid/neighborhoods.py", "models/game_of_life/controller.py",
         "visualization/square_grid_artist_2D.py"],
        [("loading from dictionaries", "core/simulation_state.py: SimulationState.from_dict"),
         ("class attributes and default arguments",
          "models/game_of_life/controller.py, structures/square_grid/neighborhoods.py"),
         ("steps that are loaded ahead", "core/simulation_result.py: load_steps")],
        ["return values of all calls, and all objects, after each call"],
        STATELESS + "all ordered pairs of calls (histories of two, and long histories made of "
        "all pairs) each from a forked fresh process, compared with the call on its own",
        "Exhaustive over the ordered pairs of calls within the bounds in the evidence.",
    ),
    prop(
        "C25", "Threads that run simulations at the same time do not disturb each other",
        "If threads of one program run simulations (serial, asynchronous or parallel), build "
        "structures and neighborhoods, draw pictures or animations, or analyze results at the same time, "
        "each on objects of its own or on shared objects that none of them changes, each "
        "gets what it would have got alone.",
        ["schedules", "programs"],
        "every pair of tasks, every interleaving of their threads within the bound on "
        "preemptions",
        "Tests run in one thread; state of a module or class that one call leaves for a later "
        "one is mixed up only if another thread comes between two particular lines.",
        ["core/runner/synchronous_runner.py", "visualization/result_artist.py",
         "core/neighborhood_builders.py", "core/simulation_result.py",
         "core/periodic_structure.py", "visualization/square_grid_artist_3D.py"],
        [("controller handed to the workers of a pool",
          "core/runner/synchronous_runner.py: SynchronousRunner._run"),
         ("artist handed to the workers of a pool", "visualization/result_artist.py")],
        ["results of two threads under a controlled scheduler"],
        STATELESS + "preemption-bounded exploration of two real threads under a controlled "
        "scheduler, with switches before every line of the package",
        "Exhaustive up to the bound on preemptions in the evidence; a line of the package is "
        "executed at once, and workers of pools run freely as they share no memory.",
    ),
    prop(
        "C26", "Files: what loads is what was saved last, or an error comes out",
        "A simulation or result that is loaded from a file is what was last saved there, "
        "whatever the file held before, under any name. If saving fails, because the device "
        "is full after any number of bytes or because something in the state cannot be "
        "encoded, an error comes out; in the latter case a file that was there before is "
        "kept. A file that was cut off at any byte never loads as something else. Loading "
        "needs no permission to write and leaves the file as it is.",
        ["crash_points", "histories", "inputs"],
        "every byte at which a file can end or a device can be full, every sequence of "
        "saves, failing saves, deletions and copies, every place of a value that cannot be "
        "encoded",
        "Tests save once to a fresh file and load it; they inject no faults and have one file.",
        ["core/simulation.py", "core/simulation_result.py", "visualization/result_artist.py",
         "visualization/structure_artist.py"],
        [("simulations as JSON", "core/simulation.py: Simulation.to_file, from_file"),
         ("results through monty", "core/simulation_result.py: to_file, from_file"),
         ("animations and pictures",
          "visualization/result_artist.py: to_gif; visualization/structure_artist.py: save_img")],
        ["files, and errors, after each operation"],
        STATELESS + "fault injection at every byte of every file that is written, and all "
        "sequences of file operations within bounds, against a model of the file system",
        "Exhaustive over cut points and full-device points of the files within the bounds; a "
        "full device is a limit on the size of files; no crash of the machine is modelled.",
    ),
    prop(
        "C27", "Pickled or deeply copied objects behave as the originals and share nothing",
        "Every object of the library (lattices, structures, neighborhoods and their builders, "
        "phase sets, states, results, simulations, setups, controllers, runners, queries, "
        "analyzers) can be pickled with protocol 2 or later and deeply copied, at any time in "
        "its life. The copy, also one that was sent to another process, gives the same answer "
        "to every call as the original gives, and takes the same changes with the same "
        "outcome. Changing the copy does not change the original or the other way round, and "
        "objects that are copied together remain connected to each other as they were.",
        ["histories", "inputs"],
        "every object of two sets, every way of copying, every call or change before the copy "
        "is made, every call and change of either afterwards",
        "Tests copy states with their own method only; no test copies an object that was used, "
        "or uses a copy.",
        ["core/lattice.py", "core/periodic_structure.py", "core/neighborhoods.py",
         "core/simulation_state.py", "core/simulation_result.py", "core/simulation.py",
         "core/analyzer.py", "discrete/phase_set.py"],
        [("what objects keep (caches, indices, graphs)",
          "core/lattice.py: Lattice; core/periodic_structure.py: PeriodicStructure; "
          "core/neighborhoods.py: Neighborhood"),
         ("sending work to the workers of a pool",
          "core/runner/synchronous_runner.py: SynchronousRunner"),
         ("states and results", "core/simulation_state.py, core/simulation_result.py")],
        ["answers of copies and originals after each call and change"],
        STATELESS + "all sequences of (call or change, copy, call or change) within bounds over "
        "all objects, against what objects give that were never copied",
        "Exhaustive over objects, calls, changes and ways of copying within the bounds; one "
        "call or change (thorough: two) before a copy is made.",
    ),
    prop(
        "C28", "With the generators seeded, what comes out is the same every time",
        "A program that seeds random and numpy.random and then makes a setup, grows particles, "
        "looks up neighbors or runs a simulation in its own process gets the same result "
        "every time: in another process, with another seed of hashing, after other programs, "
        "with objects that were used before, on any number of CPUs. It never sets the seed "
        "itself; what is "
        "not random gives the same with every seed, and leaves the generators as they are.",
        ["inputs", "histories"],
        "every program of a set that covers what draws and what does not, every seed, seed of "
        "hashing, number of CPUs, and every program that ran before, within bounds",
        "Tests mock the generators or look at counts only, in one process with one seed of "
        "hashing; the order of sets and of the lists of a graph differs between runs.",
        ["core/neighborhoods.py", "core/neighborhood_builders.py",
         "core/runner/asynchronous_runner.py", "structures/square_grid/grid_setup.py",
         "structures/square_grid/growth_setup.py", "models/growth/growth_controller.py"],
        [("draws of setups", "structures/square_grid/grid_setup.py, growth_setup.py"),
         ("draws of the next site", "core/basic_controller.py: get_random_site; core/runner/asynchronous_runner.py"),
         ("order of neighbors", "core/neighborhoods.py: Neighborhood.neighbors_of")],
        ["results of programs as text, in fresh processes"],
        STATELESS + "all combinations of program, seed and environment (hash seed, CPUs, "
        "program before, kept objects) within bounds, in fresh processes of the real code with "
        "its real generators, each compared with one reference run",
        "Exhaustive over programs, seeds and environments within the bounds. The order in which "
        "a graph lists neighbors is random inside a library and not controlled; each program "
        "runs many times, so a dependence on it shows with near certainty.",
    ),
    prop(
        "C29", "Settings of the interpreter and of the program make no difference",
        "What a call gives, or the kind of error that it fails with, does not depend on how "
        "the interpreter was started (optimized, in development mode, isolated, with another "
        "encoding, zone or seed of hashing, with streams missing) or on what the program has "
        "set (how numpy prints or treats errors, garbage collection, tracing, warnings, "
        "logging, umask, limits, locale, output streams, environment, working directory), nor "
        "on whether it is called from a thread, an event loop, a child process, an error "
        "handler or deep inside of other calls.",
        ["configurations"],
        "every way of starting, every setting, made before or after the objects, every pair of "
        "settings, over all calls",
        "Tests run in one configuration: without -O, with streams that take any text, from "
        "the main thread.",
        ["core/periodic_structure.py", "core/lattice.py", "core/simulation.py",
         "core/simulation_result.py", "core/runner/synchronous_runner.py",
         "visualization/result_artist.py"],
        [("sites at occupied places are refused",
          "core/periodic_structure.py: PeriodicStructure.add_site"),
         ("files and their encoding",
          "core/simulation.py: Simulation.to_file, from_file; core/simulation_result.py"),
         ("pools", "core/runner/synchronous_runner.py, visualization/result_artist.py")],
        ["what calls give or raise, in fresh processes under each configuration"],
        STATELESS + "all configurations within bounds, one fork of a fresh interpreter for each, "
        "over all calls, against what the calls give in the usual configuration",
        "Exhaustive over the settings that are listed and their pairs; three or more settings "
        "at once are not combined.",
    ),
    prop(
        "C30", "Arguments of another type that mean the same give the same",
        "A location, vector, motif, size, count, distance, name, set of names, colour or update "
        "may be given as a list, a tuple or an array of numpy (of integers or floats, read-only, "
        "a view), with numbers and text of Python or of numpy, as a class derived from dict or "
        "str, and with a dictionary in another order: a call gives the same as with the usual "
        "type, and fails with none of them if it does not fail with that one.",
        ["inputs"],
        "every argument of every call in every listed form, the parts of arguments too, one at "
        "a time and in all pairs",
        "Tests give each argument in the one type that their author writes; users compute "
        "sizes and locations with numpy, or read them from files.",
        ["core/lattice.py", "core/periodic_structure.py", "core/structure_builder.py",
         "core/neighborhood_builders.py", "core/simulation_state.py",
         "core/runner/asynchronous_runner.py", "structures/square_grid/grid_setup.py"],
        [("types that are told apart",
          "core/lattice.py: Lattice.__init__; core/periodic_structure.py: "
          "PeriodicStructure.build_from; core/structure_builder.py: StructureBuilder.build"),
         ("locations and sizes computed with",
          "core/lattice.py: get_cartesian_coords, get_fractional_coords, get_scaled_lattice, "
          "pbc_diff_frac_vec; core/periodic_structure.py: id_at"),
         ("updates that are told apart", "core/simulation_state.py: SimulationState.batch_update")],
        ["what calls give or raise for equal arguments of other types"],
        STATELESS + "all forms of all arguments and pairs of arguments within bounds, against "
        "what the same call gives for the usual types",
        "Exhaustive over the listed forms; a form that no code of the repository accepts on "
        "purpose (counts as floats, colours as lists) is not listed.",
    ),
]
NOT_APPLICABLE = []


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --self-test",
        "checks": [
            {"property": p["id"], "quick_cmd": f"./check {p['id']} quick",
             "thorough_cmd": f"./check {p['id']} thorough", "technique": p["technique"],
             "level": "model_checking", "level_note": p["note"]}
            for p in PROPS
        ],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: the checks drive the public interface of the code in "
                 "/repo/src, and control it from outside (random generators, pools, CPUs, threads).",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
