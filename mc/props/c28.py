"""With the generators seeded, what comes out is the same every time, wherever it runs."""

import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("MC_REPO", "/repo")

BOUNDS = (
    "31 programs that draw (setups, growth, neighborhoods, asynchronous and synchronous runs) "
    "and 28 that do not, each with 8 seeds (24 in the thorough tier) in fresh processes with 8 "
    "(24) different seeds of "
    "hashing, after every other one of the programs, repeatedly with the same objects, and on "
    "1-9 (reported) CPUs, compared with what they give in a fresh process"
)
ASSUMPTIONS = [
    "both random and numpy.random are seeded before each program",
    "draws in the workers of a pool are left out: each worker has a generator of its own",
]


def programs():
    """name -> function that makes the objects of a program and returns the program, which
    gives something that can be compared as text.  Imported in the child processes only."""
    from pylattica.core import (
        AsynchronousRunner, BasicController, DistanceNeighborhoodBuilder, Lattice,
        MotifNeighborhoodBuilder, PeriodicStructure, SimulationState, SynchronousRunner,
    )
    from pylattica.core.neighborhood_builders import (
        SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder,
    )
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.models.game_of_life.controller import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import (
        DiscreteGridSetup, GrowthSetup, MooreNbHoodBuilder,
        PseudoHexagonalNeighborhoodBuilder2D, PseudoHexagonalNeighborhoodBuilder3D,
        PseudoPentagonalNeighborhoodBuilder, VonNeumannNbHood2DBuilder,
    )

    from ..sut import content, history

    phases = ["alpha", "beta", "gamma", "delta"]
    ps = PhaseSet([*phases, "back"])

    def show(simulation):
        return [content(simulation.state), [
            (s["_site_id"], str(s["_site_class"]), s["_location"].tolist())
            for s in simulation.structure.sites()]]

    def grid(n, dim=2):
        vecs = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
        return PeriodicStructure.build_from(Lattice(vecs), [n] * dim, [(0,) * dim])

    def filled(struct, every=3):
        state = SimulationState.from_struct(struct)
        for s in struct.site_ids:
            state.set_site_state(s, {OCC: "back" if s % every else phases[s // every % 4]})
        return state

    def setups(dim):
        made = DiscreteGridSetup(ps, dim=dim)
        n = 6 if dim == 2 else 3
        return {
            "particles": lambda: show(made.setup_random_particles(n, 2, 3, "back", phases)),
            "particle": lambda: show(made.setup_random_particles(n, 1.5, 1, "back", ["alpha"])),
            "noise": lambda: show(made.setup_noise(n, phases)),
            "sites": lambda: show(made.setup_random_sites(
                n, 5, "back", {p: i + 1 for i, p in enumerate(phases)}, buffer=None)),
            "apart": lambda: show(made.setup_random_sites(
                n + 1, 2, "back", {"beta": 1, "alpha": 1}, buffer=1)),
            "close": lambda: show(made.setup_random_sites(
                n, 3.6, "back", {"gamma": 0.5, "beta": 0.25, "alpha": 0.25}, buffer=0)),
        }

    def neighbors(builder, struct, calls=3):
        hood = builder.get(struct)
        return lambda: [
            [sorted(hood.neighbors_of(s)), sorted(hood.neighbors_of(s, include_weights=True))]
            for _ in range(calls) for s in struct.site_ids]

    class Walk(BasicController):
        def __init__(self, hood=None):
            self.hood = hood

        def get_state_update(self, site_id, prev_state):
            n = prev_state.get_site_state(site_id).get("n", 0)
            up = {site_id: {"n": n + 1}}
            if self.hood is not None and n % 2:
                return up, sorted(self.hood.neighbors_of(site_id))[:1]
            return up

    class Named(Walk):
        """Prefers a list of sites."""

        def get_random_site(self, state):
            import random

            return random.sample(state.site_ids(), 3)

    def run(runner, controller, state, steps):
        def program():
            result = runner.run(state, controller, steps)
            return [history(result), content(result.output)]

        return program

    def grow(dim, builder, buffer=1):
        setup = GrowthSetup(ps, dim=dim)
        return lambda: show(setup.grow(
            4 if dim == 2 else 3, 3 if dim == 2 else 2, "back",
            {"beta": 1, "alpha": 1, "gamma": 1} if dim == 2 else {"gamma": 1, "delta": 1},
            builder, buffer=buffer))

    g4, g6, g3 = grid(4), grid(6), grid(3, 3)
    both = PeriodicStructure.build_from(
        Lattice([(1, 0), (0.25, 1.5)]), [3, 2], {"A": [(0, 0)], "B": [(0.5, 0.5)]})
    either = StochasticNeighborhoodBuilder([MooreNbHoodBuilder(1), VonNeumannNbHood2DBuilder(1)])
    out = {}
    for dim in (2, 3):
        for name in setups(dim):
            out[f"{name} {dim}D"] = lambda dim=dim, name=name: setups(dim)[name]
    out.update({
        "hexagonal": lambda: neighbors(PseudoHexagonalNeighborhoodBuilder2D(), g4),
        "hexagonal 3D": lambda: neighbors(PseudoHexagonalNeighborhoodBuilder3D(), g3, 1),
        "pentagonal": lambda: neighbors(PseudoPentagonalNeighborhoodBuilder(), g4),
        "either": lambda: neighbors(either, g4),
        "per class": lambda: neighbors(SiteClassNeighborhoodBuilder({
            "A": StochasticNeighborhoodBuilder(
                [DistanceNeighborhoodBuilder(1.2), DistanceNeighborhoodBuilder(2.1)]),
            "B": DistanceNeighborhoodBuilder(1.2)}), both),
        "walk": lambda: run(AsynchronousRunner(), Walk(), filled(g4), 20),
        "walk on": lambda: run(AsynchronousRunner(), Walk(either.get(g4)), filled(g4), 20),
        "walk 3D": lambda: run(AsynchronousRunner(), Walk(), filled(g3), 12),
        "walk from list": lambda: run(AsynchronousRunner(), Named(), filled(g4), 14),
        "life, one by one": lambda: run(
            AsynchronousRunner(), GameOfLifeController(g4), life_state(g4), 25),
        "growth, one by one": lambda: run(
            AsynchronousRunner(),
            GrowthController(ps, g6, "back", MooreNbHoodBuilder(1)), filled(g6, 7), 40),
        "growth, hexagonal": lambda: run(
            SynchronousRunner(),
            GrowthController(ps, g6, "back", PseudoHexagonalNeighborhoodBuilder2D()),
            filled(g6, 7), 4),
        "growth, pentagonal": lambda: run(
            SynchronousRunner(),
            GrowthController(ps, g6, "back", PseudoPentagonalNeighborhoodBuilder()),
            filled(g6, 5), 3),
        "grow": lambda: grow(2, MooreNbHoodBuilder(1)),
        "grow apart": lambda: grow(2, VonNeumannNbHood2DBuilder(1), 1),
        "grow anywhere": lambda: grow(2, VonNeumannNbHood2DBuilder(1), None),
        "grow far": lambda: grow(2, MotifNeighborhoodBuilder([(1, 0), (0, 1), (-1, 0)]), 0),
        "grow 3D": lambda: grow(3, MooreNbHoodBuilder(1, dim=3), None),
        "random then walk": lambda: two(setups(2)["noise"], run(
            AsynchronousRunner(), Walk(), filled(g4), 5)),
    })

    def two(a, b):
        return lambda: [a(), b()]

    def life_state(struct):
        state = SimulationState.from_struct(struct)
        for s in struct.site_ids:
            state.set_site_state(s, {OCC: "dead" if s % 3 else "alive"})
        return state

    return out


def quiet_programs():
    """Calls that are not random."""
    from . import c24

    w = c24.World(0)
    names = (
        "build", "builder int", "site at", "structure from dict", "moore", "neumann", "distance",
        "annular", "motif hood", "class hood", "neighbors", "state from struct", "batch", "steps",
        "load", "result file", "simulation file", "serial", "life", "growth", "picture",
        "sites where", "all phases", "coords", "interface", "particle", "from pymatgen",
        "to pymatgen",
    )
    return {name: lambda name=name: lambda: c24.look(c24.CALLS[name](w)) for name in names}


def _digest(x):
    return hashlib.sha256(json.dumps(x, default=str).encode()).hexdigest()[:16]


def child():
    """Reads jobs, gives what each of their programs gives.  In a process of its own, with the
    generators as they are."""
    jobs = json.load(sys.stdin)
    import multiprocessing

    sys.path.insert(0, os.path.join(REPO, "src"))
    table = programs()
    if any(name not in table for job in jobs for name, _ in job["do"]):
        table = {**table, **quiet_programs()}
    out = []
    stdout, sys.stdout = sys.stdout, sys.stderr
    kept = {}
    for job in jobs:
        if job.get("cpus"):
            n = job["cpus"]
            multiprocessing.cpu_count = lambda: n
            os.cpu_count = lambda: n
        out.append(_forked(table, kept, job) if job.get("fork") else _do(table, kept, job))
    stdout.write(json.dumps(out))
    stdout.flush()
    os._exit(0)


def _forked(table, kept, job):
    """The job in a fork of this process, in which no program has run yet."""
    r, fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = _do(table, kept, job)
            except Exception as e:
                data = {"error": f"{type(e).__name__}: {e}"}
            with os.fdopen(fd, "w") as f:
                json.dump(data, f)
        finally:
            os._exit(0)
    os.close(fd)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    data = json.loads(data) if data else {"error": "the process died"}
    if isinstance(data, dict):
        raise RuntimeError(f"{job['do']}: {data['error']}")
    return data


def _do(table, kept, job):
    import random

    import numpy as np

    got = []
    for name, seed in job["do"]:
        if job.get("keep"):
            if name not in kept:
                kept[name] = table[name]()
            program = kept[name]
        else:
            program = table[name]()
        random.seed(seed)
        np.random.seed(seed)
        before = (random.getstate(), _np_state(np))
        result = program()
        got.append({
            "gives": _digest(result),
            "drew": before != (random.getstate(), _np_state(np)),
            "next": [random.random(), float(np.random.random())],
            "short": repr(result)[:300],
        })
    return got


def _np_state(np):
    kind, keys, pos, *rest = np.random.get_state()
    return (kind, keys.tobytes(), pos, *rest)


def ask(jobs, hashing):
    """-> (what came out of the jobs, error)"""
    code = (f"import sys; sys.path.insert(0, {VERIF!r}); from mc.props import c28; c28.child()")
    done = subprocess.run(
        [sys.executable, "-B", "-c", code], input=json.dumps(jobs).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env={**os.environ, "PYTHONHASHSEED": str(hashing), "TQDM_DISABLE": "1"}, check=False,
        timeout=600,
    )
    if done.returncode != 0 or not done.stdout:
        return None, done.stderr.decode()[-800:]
    return json.loads(done.stdout), None


RANDOM = [
    *(f"{n} {d}D" for d in (2, 3)
      for n in ("particles", "particle", "noise", "sites", "apart", "close")),
    "hexagonal", "hexagonal 3D", "pentagonal", "either", "per class", "walk", "walk on",
    "walk 3D", "walk from list", "life, one by one", "growth, one by one", "growth, hexagonal",
    "growth, pentagonal", "grow", "grow apart", "grow anywhere", "grow far", "grow 3D",
    "random then walk",
]
QUIET = [
    "build", "builder int", "site at", "structure from dict", "moore", "neumann", "distance",
    "annular", "motif hood", "class hood", "neighbors", "state from struct", "batch", "steps",
    "load", "result file", "simulation file", "serial", "life", "growth", "picture",
    "sites where", "all phases", "coords", "interface", "particle", "from pymatgen",
    "to pymatgen",
]


SEEDS = {"quick": range(8), "thorough": range(24)}
FRESH = {}  # (program, seed) -> what it gives in a process that does nothing else
PROBLEMS = []


def expect(tier):
    """Every program, with each seed, in a process of its own."""
    if FRESH or PROBLEMS:
        return
    from concurrent.futures import ThreadPoolExecutor

    def part(names):
        jobs = [{"do": [[name, seed]], "fork": True} for name in names for seed in SEEDS[tier]]
        return jobs, *ask(jobs, 0)

    with ThreadPoolExecutor(4) as pool:
        for jobs, got, error in pool.map(part, (RANDOM[k::4] for k in range(4))):
            if got is None:
                PROBLEMS.append(error)
                continue
            for job, (one,) in zip(jobs, got):
                FRESH[tuple(job["do"][0])] = one


def cases(tier):
    few = tier == "quick"
    expect(tier)
    seeds = list(SEEDS[tier])
    out = []
    for hashing in range(1, 8 if few else 24):
        out.append({"kind": "hashing", "seeds": seeds, "hashing": hashing})
    for k in range(8):
        out.append({"kind": "after", "part": k, "parts": 8,
                    "seeds": [3] if few else seeds[:8], "hashing": 5 + k})
    for hashing in range(0, 3 if few else 12):
        out.append({"kind": "kept", "seeds": seeds[:4] if few else seeds, "hashing": hashing})
    for name in ("grow", "grow apart", "grow anywhere", "grow far", "grow 3D"):
        out.append({"kind": "cpus", "program": name, "seeds": seeds[:4 if few else 12]})
    for hashing in range(0, 2 if few else 8):
        out.append({"kind": "quiet", "hashing": hashing})
    return out


def _same(ctx, got, program, message, **info):
    want = FRESH[program]
    for key in ("gives", "next", "drew"):
        ctx.check(got[key] == want[key],
                  message if key == "gives" else "a program draws another number of times",
                  got=got["short"], expected=want["short"], program=program, **info)
    ctx.step()
    ctx.outcome((program, got["gives"]))


def _ask(ctx, jobs, hashing):
    got, error = ask(jobs, hashing)
    ctx.check(got is not None, "a program fails", error=error)
    return zip(jobs, got)


def run(case, ctx):
    expect(ctx.tier)
    ctx.check(not PROBLEMS, "a program fails", error=PROBLEMS)
    kind = case["kind"]
    if kind == "quiet":
        jobs = [{"do": [[name, seed]]} for name in QUIET for seed in (1, 2)]
        seen = {}
        for job, (one,) in _ask(ctx, jobs, case["hashing"]):
            gives = seen.setdefault(job["do"][0][0], one)
            ctx.check(one["gives"] == gives["gives"], "a call that is not random gives "
                      "something else with another seed", call=job["do"][0],
                      got=one["short"], expected=gives["short"])
            ctx.check(not one["drew"], "a call that is not random draws", call=job["do"][0])
            ctx.state((kind, job["do"][0], case["hashing"]))
            ctx.step()
        ctx.trace()
    elif kind == "kept":
        # the same objects over and over, all programs in one process, in both directions
        order = [(name, seed) for seed in case["seeds"] for name in RANDOM]
        order += order[::-1]
        jobs = [{"do": [list(x)], "keep": True} for x in order]
        for x, (_, (one,)) in zip(order, _ask(ctx, jobs, case["hashing"])):
            _same(ctx, one, x, "the same objects give something else later")
            ctx.state((kind, case["hashing"], x))
        ctx.trace()
    elif kind == "hashing":
        jobs = [{"do": [[name, seed]], "fork": True} for name in RANDOM for seed in case["seeds"]]
        for job, (one,) in _ask(ctx, jobs, case["hashing"]):
            x = tuple(job["do"][0])
            _same(ctx, one, x, "something else comes out in another process",
                  hashing=case["hashing"])
            ctx.check(one["drew"], "a random program does not draw", program=x)
            for seed in case["seeds"]:
                ctx.check(seed == x[1] or one["next"][0] != FRESH[x[0], seed]["next"][0] and
                          one["next"][1] != FRESH[x[0], seed]["next"][1],
                          "the generators are the same after a program with another seed",
                          program=x, other=seed)
            ctx.state((kind, x, case["hashing"]))
            ctx.trace()
    elif kind == "after":
        jobs = [{"do": [[other, 1], [name, seed]], "fork": True}
                for name in RANDOM[case["part"] :: case["parts"]]
                for other in RANDOM for seed in case["seeds"]]
        for job, (_, one) in _ask(ctx, jobs, case["hashing"]):
            _same(ctx, one, tuple(job["do"][1]),
                  "a program gives something else after another one", after=job["do"][0])
            ctx.state((kind, tuple(map(tuple, job["do"]))))
            ctx.trace()
    elif kind == "cpus":
        jobs = [{"do": [[case["program"], seed]], "cpus": cpus, "fork": True}
                for cpus in range(1, 10) for seed in case["seeds"]]
        for job, (one,) in _ask(ctx, jobs, 0):
            _same(ctx, one, tuple(job["do"][0]), "the number of CPUs makes a difference",
                  cpus=job["cpus"])
            ctx.state((kind, tuple(job["do"][0]), job["cpus"]))
            ctx.trace()
