"""Parallel runs give what serial runs give, whichever worker runs which batch."""

import itertools
import multiprocessing
import os

from pylattica.core.runner import SynchronousRunner

from pylattica.core import DistanceNeighborhoodBuilder, Lattice, PeriodicStructure
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.models.game_of_life.controller import GameOfLifeController
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import MooreNbHoodBuilder, VonNeumannNbHood2DBuilder

from .. import explore as ex
from .. import vpool
from ..rules import GENERAL, RULES, SITES, start
from ..sut import RuleController, build_state, content, history

BOUNDS = (
    "all assignments of batches to workers over all steps (workers without a task so far "
    "are interchangeable), for up to 4 workers; larger pools up to the deviation bound of "
    "the case from the default assignment; 1-9 sites, 1-5 steps, the rules of mc.rules; the controllers of the package, with ties; up to "
    "1030 sites, 60 steps and 64 workers with the default assignment and at most one deviation"
)
ASSUMPTIONS = [
    "workers share no memory with each other or the parent after the pool is made "
    "(fork start method)",
    "controllers are deterministic functions of the site and the state they are given",
]

IDS = {
    1: [[0], [5]],
    2: [[0, 1], [9, 2]],
    3: [[0, 1, 2], [7, 0, 3]],
    4: [[0, 1, 2, 3], [10, 4, 0, 6]],
    5: [[0, 1, 2, 3, 4]],
    6: [[0, 1, 2, 3, 4, 5]],
    7: [[6, 5, 4, 3, 2, 1, 0]],
    9: [list(range(9))],
}


def _values(n, seed):
    return [(3 * i + seed * (i + 1) + (i * i) % 3) % 5 for i in range(n)]


def cases(tier):
    out = []

    def add(kind, rules, n, workers, steps, dev=None, seeds=(1,), via="argument"):
        for rule in rules:
            for ids in IDS[n]:
                for seed in seeds:
                    out.append(
                        {
                            "kind": kind,
                            "rule": rule,
                            "ids": ids,
                            "values": _values(n, seed),
                            "workers": workers,
                            "steps": steps,
                            "deviations": dev,
                            "via": via,
                        }
                    )

    # one token moving around: only one site changes in each step
    for n, w in ((2, 2), (3, 2), (3, 3), (4, 2)):
        for ids in IDS[n]:
            out.append(
                {
                    "kind": "explore",
                    "rule": "one",
                    "ids": ids,
                    "values": [2] + [0] * (n - 1),
                    "workers": w,
                    "steps": 2 if w == 3 else 3,
                    "deviations": None,
                    "via": "argument",
                }
            )
    for n in (1, 2, 3, 4, 5):
        add("explore", RULES, n, 1, 3)
    for n in (1, 2, 3, 4, 5):
        add("explore", RULES, n, 2, 3)
    add("explore", RULES, 3, 3, 2)
    add("explore", RULES, 4, 3, 2)
    add("explore", RULES, 5, 3, 2, dev=2)
    add("explore", RULES, 4, 4, 2, dev=2)
    add("explore", RULES, 2, 5, 2)
    add("explore", RULES, 7, 3, 2, dev=2)
    add("explore", RULES, 9, 4, 3, dev=1)
    add("explore", RULES, 4, 2, 3, via="cpus")
    add("explore", ["own", "sparse", "grow"], 3, 2, 5, dev=2)
    add("explore", ["own"], 3, 2, 0)
    out.append(
        {
            "kind": "explore",
            "rule": "own",
            "ids": [],
            "values": [],
            "workers": 2,
            "steps": 2,
            "deviations": None,
            "via": "argument",
        }
    )
    for rules in (
        ["own", "sparse", "with_general"],
        ["sparse", "push", "nothing"],
        ["grow", "own", "as_ids"],
        ["only_general", "as_sites", "one"],
    ):
        add("explore", [rules], 3, 2, 3)
        add("explore", [rules], 3, 3, 2, dev=2)
    # several runs in one process: controllers, states, workers and steps change
    for first, second in itertools.permutations(
        ["own", "sparse", "with_general", "exchange", "only_general"], 2
    ):
        out.append(
            {
                "kind": "sequence",
                "runs": [
                    {"rule": first, "ids": [0, 1, 2], "seed": 1, "workers": 2, "steps": 1},
                    {"rule": second, "ids": [0, 1, 2], "seed": 2, "workers": 2, "steps": 2},
                    {"rule": first, "ids": [4, 0], "seed": 3, "workers": 2, "steps": 1},
                ],
                "ids": [0, 1, 2],
            }
        )
    for runs in (
        [("own", 4, 2, 1), ("own", 3, 3, 2)],
        [("grow", 3, 3, 2), ("grow", 3, 2, 1), ("own", 2, 2, 2)],
        [("one", 2, 1, 1), ("sparse", 4, 2, 2)],
    ):
        out.append(
            {
                "kind": "sequence",
                "runs": [
                    {"rule": r, "ids": list(range(n)), "seed": i, "workers": w, "steps": k}
                    for i, (r, n, w, k) in enumerate(runs)
                ],
                "ids": [],
            }
        )
    # real pools
    for workers in (1, 2, 3, 4):
        for rule in ("own", "sparse", "with_general", "grow", "one"):
            out.append(
                {
                    "kind": "real",
                    "rule": rule,
                    "ids": list(range(7)),
                    "values": _values(7, 2),
                    "workers": workers,
                    "steps": 4,
                }
            )
    # real pools, whatever way of starting processes is set for the program
    for method in ("spawn", "forkserver", "fork"):
        for workers in (2, 3):
            out.append(
                {
                    "kind": "real",
                    "rule": "own",
                    "ids": list(range(7)),
                    "values": _values(7, 2),
                    "workers": workers,
                    "steps": 3,
                    "method": method,
                }
            )
    # the controllers of the package
    for name in SHIPPED:
        for seed in range(6 if tier == "quick" else 30):
            for workers in (1, 2, 3, 5):
                out.append({"kind": "shipped", "controller": name, "seed": seed,
                            "workers": workers, "steps": 3})
    # how sites are split into batches
    for workers in range(1, 9):
        for n in [*range(1, 18), 31, 64]:
            out.append(
                {
                    "kind": "explore",
                    "rule": "with_general",
                    "ids": [2 * i for i in range(n)],
                    "values": _values(n, 2),
                    "workers": workers,
                    "steps": 2,
                    "deviations": 0,
                    "via": "argument" if n % 2 else "cpus",
                }
            )
    # more workers than most computers have CPUs
    for workers in (9, 10, 11, 12, 13, 16, 20, 24, 32, 33, 48, 64):
        for n in (1, 8, 10, 17, 23, 25, 31, 33, 50, 64, 65, 100, 129):
            out.append(
                {
                    "kind": "explore",
                    "rule": "grow" if n in (10, 25, 50) else "with_general",
                    "ids": [2 * i for i in range(n)],
                    "values": _values(n, 2),
                    "workers": workers,
                    "steps": 2,
                    "deviations": 0,
                    "via": "argument" if n % 2 else "cpus",
                }
            )
    # larger simulations and longer runs
    for n, workers, steps, dev in ((60, 3, 3, 1), (150, 7, 12, 0), (301, 4, 5, 0),
                                   (30, 2, 60, 0), (1030, 8, 2, 0)):
        for rule in RULES if n < 300 else ("own", "sparse", "with_general", "push", "one"):
            out.append(
                {
                    "kind": "explore",
                    "rule": rule,
                    "ids": [(7 * i + 3) % n * (1 if n % 4 else 1000003) for i in range(n)],
                    "values": _values(n, 2),
                    "workers": workers,
                    "steps": steps,
                    "deviations": dev,
                    "via": "argument",
                }
            )
    for rule in ("own", "sparse", "with_general", "push"):
        out.append(
            {
                "kind": "real",
                "rule": rule,
                "ids": [(7 * i + 3) % 500 for i in range(500)],
                "values": _values(500, 1),
                "workers": 3,
                "steps": 25,
            }
        )
    if tier == "thorough":
        add("explore", RULES, 3, 3, 3)
        add("explore", RULES, 4, 4, 2)
        add("explore", RULES, 4, 4, 3, dev=3)
        add("explore", RULES, 9, 4, 4, dev=2)
        add("explore", RULES, 4, 2, 5, seeds=(1, 2, 3))
        add("explore", RULES, 3, 2, 4, seeds=(2, 3, 4))
        add("explore", RULES, 9, 5, 3, dev=2)
        for combo in itertools.product(["own", "sparse", "with_general", "push"], repeat=3):
            add("explore", [list(combo)], 3, 2, 3)
        for seed in range(10):
            for workers in (2, 3, 5):
                for rule in RULES:
                    out.append(
                        {
                            "kind": "real",
                            "rule": rule,
                            "ids": list(range(9)),
                            "values": _values(9, seed),
                            "workers": workers,
                            "steps": 5,
                        }
                    )
    return out


def _serial(case, ctx):
    model = start(case["ids"], case["values"], {"total": 0})
    initial = build_state(model)
    result = SynchronousRunner().run(
        initial, RuleController(case["rule"], case["ids"]), case["steps"]
    )
    return history(result), content(result.output)


def _compare(case, ctx, expected, output, got, got_output, initial_after, schedule):
    ctx.equal(len(got), len(expected), "the parallel run has a different length",
              schedule=schedule)
    for i, (g, e) in enumerate(zip(got, expected)):
        ctx.equal(
            g, e, f"step {i} of the parallel run differs from the serial run",
            schedule=schedule,
        )
    ctx.equal(
        got_output, output, "the output of the parallel run differs", schedule=schedule
    )
    ctx.equal(
        initial_after,
        start(case["ids"], case["values"], {"total": 0}),
        "the parallel run changed the state it was given",
        schedule=schedule,
    )


def _life(struct, dim):
    return GameOfLifeController(struct, "B23/S23")


def _growth(builder):
    return lambda struct, dim: GrowthController(
        PhaseSet(["alive", "dead", "other", "back"]), struct, background_phase="back",
        nb_builder=builder(dim))


# name -> (controller of a structure, cells of the grid, phases)
SHIPPED = {
    "life": (_life, (4, 4), ("alive", "dead")),
    "life 5x3": (_life, (5, 3), ("alive", "dead")),
    "growth": (_growth(lambda dim: MooreNbHoodBuilder(1, dim=dim)), (5, 5), 3),
    "growth 2": (_growth(lambda dim: MooreNbHoodBuilder(2, dim=dim)), (5, 6), 3),
    "growth, few neighbors": (_growth(lambda dim: VonNeumannNbHood2DBuilder(1)), (5, 4), 3),
    "growth, by distance": (_growth(lambda dim: DistanceNeighborhoodBuilder(1.5)), (4, 4), 3),
    "growth 3D": (_growth(lambda dim: MooreNbHoodBuilder(1, dim=dim)), (3, 3, 3), 4),
}


def _shipped(case, ctx):
    """Also where phases tie, the runs agree with each other."""
    make, cells, phases = SHIPPED[case["controller"]]
    dim = len(cells)
    lattice = Lattice([tuple(int(i == j) for j in range(dim)) for i in range(dim)])
    struct = PeriodicStructure.build_from(lattice, list(cells), [(0,) * dim])
    model = {SITES: {}, GENERAL: {}}
    for k, site in enumerate(struct.site_ids):
        x = (k * k * 7 + k * (case["seed"] + 3) + case["seed"]) % 11
        if isinstance(phases, tuple):
            phase = phases[x % len(phases)]
        else:
            phase = ("alive", "dead", "other")[k % 3] if x % phases == 1 else "back"
        model[SITES][site] = {"_site_id": site, OCC: phase}

    def go(runner):
        initial = build_state(model)
        result = runner.run(initial, make(struct, dim), case["steps"])
        return [history(result), content(result.output), content(initial)]

    expected = go(SynchronousRunner())
    ctx.equal(expected[2], model, "the serial run changed the state it was given")
    for _ in range(2):
        ctx.equal(go(SynchronousRunner())[0], expected[0], "two serial runs differ")

    def body(chooser):
        with vpool.controlled(cpus=case["workers"]) as pool:
            got = go(SynchronousRunner(parallel=True, workers=case["workers"]))
            return got, list(pool.schedule)

    def check(res, chooser):
        got, schedule = res
        ctx.equal(got, expected, "the parallel run differs from the serial run",
                  schedule=schedule)
        ctx.step(len(schedule))
        ctx.state((case["controller"], case["seed"], schedule))
        ctx.trace()
        ctx.outcome(got[1])

    ex.explore(body, check, deviations=1, ctx=ctx)


def _sequence(case, ctx):
    """Runs one after another in one process, by one runner or by one each; the state that
    a run starts from may be the output of the run before."""
    runs = case["runs"]
    for same_runner, chained in itertools.product((False, True), repeat=2):
        if same_runner and len({r["workers"] for r in runs}) > 1:
            continue

        def starting(i, previous):
            one = runs[i]
            if chained and i and runs[i - 1]["ids"] == one["ids"]:
                return previous.output
            model = start(one["ids"], _values(len(one["ids"]), one["seed"]), {"total": 0})
            return build_state(model)

        expected, previous = [], None
        for i, one in enumerate(runs):
            previous = SynchronousRunner().run(
                starting(i, previous), RuleController(one["rule"], one["ids"]), one["steps"]
            )
            expected.append(history(previous))

        def body(chooser):
            got, previous, runner = [], None, None
            with vpool.controlled(cpus=2) as pool:
                for i, one in enumerate(runs):
                    if runner is None or not same_runner:
                        runner = SynchronousRunner(parallel=True, workers=one["workers"])
                    previous = runner.run(
                        starting(i, previous),
                        RuleController(one["rule"], one["ids"]),
                        one["steps"],
                    )
                    got.append(history(previous))
                return got, list(pool.schedule)

        def check(res, chooser):
            got, schedule = res
            for i, (g, e) in enumerate(zip(got, expected)):
                ctx.equal(
                    g, e, f"parallel run {i} in one process differs from the serial run",
                    schedule=schedule,
                )
                ctx.state((runs[i]["rule"], g))
            ctx.step(len(schedule))
            ctx.trace(len(got))

        out = ex.explore(body, check, deviations=2, ctx=ctx)
        ctx.count("schedules", out.runs)
        ctx.count("deviation_bounded_cases")


def run(case, ctx):
    if case["kind"] == "sequence":
        return _sequence(case, ctx)
    if case["kind"] == "shipped":
        return _shipped(case, ctx)
    ids, steps = case["ids"], case["steps"]
    expected, output = _serial(case, ctx)
    for i, e in enumerate(expected):
        ctx.state((case["rule"], ids, i, e))
    if case["kind"] == "real":
        if "method" not in case:
            return _real(case, ctx, expected, output)
        before = multiprocessing.get_start_method(allow_none=True)
        multiprocessing.set_start_method(case["method"], force=True)
        try:
            return _real(case, ctx, expected, output)
        finally:
            multiprocessing.set_start_method(before, force=True)

    workers = case["workers"]

    def body(chooser):
        with vpool.controlled(cpus=workers) as pool:
            initial = build_state(start(ids, case["values"], {"total": 0}))
            runner = SynchronousRunner(
                parallel=True, workers=None if case["via"] == "cpus" else workers
            )
            result = runner.run(initial, RuleController(case["rule"], ids), steps)
            return (
                history(result),
                content(result.output),
                content(initial),
                list(pool.schedule),
            )

    def check(res, chooser):
        got, got_output, initial_after, schedule = res
        _compare(case, ctx, expected, output, got, got_output, initial_after, schedule)
        ctx.state(("schedule", workers, len(ids), steps, schedule))
        ctx.step(len(schedule))
        ctx.trace()
        ctx.outcome((case["rule"], got[-1]))
        ctx.sample({"schedule": schedule, "final": got[-1]})

    out = ex.explore(body, check, deviations=case["deviations"], ctx=ctx)
    ctx.count("schedules", out.runs)
    if case["deviations"] is not None:
        ctx.count("deviation_bounded_cases")
    # the same schedule twice gives the same execution
    first = ex.run_with(ex.Chooser(), body)
    second = ex.run_with(ex.Chooser(), body)
    ctx.equal(first[3], second[3], "the same choices led to different schedules")


def _real(case, ctx, expected, output):
    """The same with an actual pool; which worker ran what is recorded, to see that it is
    one of the assignments that are explored."""
    path = os.path.abspath("trace")
    ids = case["ids"]

    class Traced(RuleController):
        def get_state_update(self, site_id, prev_state):
            fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.write(fd, f"{os.getpid()} {site_id}\n".encode())
            os.close(fd)
            return super().get_state_update(site_id, prev_state)

    initial = build_state(start(ids, case["values"], {"total": 0}))
    result = SynchronousRunner(parallel=True, workers=case["workers"]).run(
        initial, Traced(case["rule"], ids), case["steps"]
    )
    with open(path, encoding="utf-8") as f:
        trace = [line.split() for line in f]
    pids = {p for p, _ in trace}
    _compare(
        case, ctx, expected, output, history(result), content(result.output),
        content(initial), [],
    )
    visited = {}
    for _, s in trace:
        visited[int(s)] = visited.get(int(s), 0) + 1
    for s in ids:
        ctx.equal(
            visited.get(s, 0), case["steps"], f"site {s} was not updated once in each step"
        )
    ctx.check(len(pids) <= case["workers"], "more workers than asked for", pids=sorted(pids))
    ctx.count("real_pool_runs")
    ctx.count("real_pool_workers_seen", len(pids))
    ctx.trace()
