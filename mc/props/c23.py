"""A failing controller or artist: the error comes out, and nothing else of it remains."""

import itertools
import multiprocessing
import os

from PIL import Image, ImageSequence

from pylattica.core import BasicController, SimulationResult
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner
from pylattica.visualization import ResultArtist
from pylattica.visualization.structure_artist import StructureArtist

from .. import explore as ex
from .. import vpool
from ..rules import SITES, start
from ..sut import build_state, content, history

BOUNDS = (
    "an error of 23 kinds, lasting or passing, at every single call of the controller (every visit, every request "
    "for a site, preparation, making of the result) in serial, asynchronous and parallel runs "
    "of up to 4 sites and 3 steps, the latter under all assignments of batches to 2 workers; "
    "at every frame and pair of frames of animations of up to 4 frames"
)
ASSUMPTIONS = ["after the error, the controller behaves again"]


class Custom(Exception):
    def __init__(self, site, what):
        super().__init__(site, what)
        self.site, self.what = site, what


class CustomKey(KeyError):
    pass


ERRORS = {
    "value": lambda: ValueError("no such value"),
    "key": lambda: KeyError("DISCRETE"),
    "customkey": lambda: CustomKey(3),
    "index": lambda: IndexError("pop from an empty deque"),
    "attribute": lambda: AttributeError("'NoneType' object has no attribute 'get'"),
    "type": lambda: TypeError("unsupported"),
    "runtime": lambda: RuntimeError("ran out"),
    "os": lambda: FileNotFoundError(2, "no such file"),
    "stop": lambda: StopIteration(3),
    "zero": lambda: ZeroDivisionError("division by zero"),
    "assertion": lambda: AssertionError("never"),
    "notimplemented": lambda: NotImplementedError("later"),
    "custom": lambda: Custom(4, "what"),
    "recursion": lambda: RecursionError("maximum recursion depth exceeded"),
    "memory": lambda: MemoryError(),
    "overflow": lambda: OverflowError("too large"),
    "timeout": lambda: TimeoutError("no answer"),
    "eof": lambda: EOFError("nothing to read"),
    "pipe": lambda: BrokenPipeError(32, "Broken pipe"),
    "import": lambda: ModuleNotFoundError("No module named 'missing'"),
    "warning": lambda: UserWarning("treated as an error"),
    "interrupt": lambda: KeyboardInterrupt(),
    "exit": lambda: SystemExit(3),
}
FEW = ("key", "custom", "runtime", "timeout", "eof", "pipe")
STOPS = ("interrupt", "exit")  # errors that no worker passes on


def cases(tier):
    out = []
    for kind in ("serial", "asynchronous"):
        for error in ERRORS:
            for ids in ([0], [0, 1, 2], [7, 0, 3, 1]):
                for steps in (1, 3):
                    out.append({"kind": kind, "error": error, "ids": ids, "steps": steps})
    for error in ERRORS:
        if error in STOPS:
            continue
        for ids, workers in (([0, 1], 2), ([4, 0, 2], 2), ([0, 1, 2], 1), ([0, 1, 2, 3], 3)):
            out.append({"kind": "parallel", "error": error, "ids": ids, "steps": 2,
                        "workers": workers, "deviations": 1 if tier == "quick" else None})
    for error in FEW:
        for workers in (1, 2, 3):
            out.append({"kind": "real", "error": error, "ids": [0, 1, 2, 3], "steps": 2,
                        "workers": workers})
    for error in ERRORS:
        if error not in STOPS:
            for frames in (1, 2, 4):
                out.append({"kind": "animation", "error": error, "frames": frames})
    for error in ERRORS:
        out.append({"kind": "setup", "error": error})
    if tier == "thorough":
        for error in ERRORS:
            for kind in ("serial", "asynchronous"):
                out.append({"kind": kind, "error": error, "ids": [3, 2, 1, 0, 9],
                            "steps": 6, "twice": True})
            if error not in STOPS:
                out.append({"kind": "parallel", "error": error, "ids": [0, 1, 2, 3, 4],
                            "steps": 3, "workers": 3, "deviations": 2})
    return out


def mark_of_fault():
    mark = os.path.abspath(".struck")
    if os.path.exists(mark):
        os.unlink(mark)
    return mark


def struck(mark):
    """Whether a fault strikes: always, or the first time only if there is a mark of it."""
    if mark is None:
        return True
    try:
        os.close(os.open(mark, os.O_CREAT | os.O_EXCL))
    except FileExistsError:
        return False
    return True


class Counting(BasicController):
    """Every visit raises the count of the site and of its successor's visits; `faults` is
    the set of calls that fail: numbers of calls, or pairs of a site and its count."""

    def __init__(self, ids, error, faults=(), passing=False):
        self.ids, self.error, self.faults = ids, error, set(faults)
        self.calls = []
        self.result = None
        # a fault that passes strikes once, in whichever process
        self.mark = mark_of_fault() if passing else None

    def _called(self, what):
        n = len(self.calls)
        self.calls.append(what)
        if n in self.faults or what in self.faults:
            if struck(self.mark):
                raise ERRORS[self.error]()

    def pre_run(self, initial_state):
        self._called(("pre_run", None))

    def instantiate_result(self, starting_state):
        self._called(("result", None))
        self.result = SimulationResult(starting_state)
        return self.result

    def get_random_site(self, state):
        done = sum(1 for c in self.calls if c[0] in self.ids)
        self._called(("ask", done))
        return self.ids[(3 * done) % len(self.ids)]

    def get_state_update(self, site_id, prev_state):
        n = prev_state.get_site_state(site_id)["v"]
        self._called((site_id, n))
        total = sum(prev_state.get_site_state(s)["v"] for s in self.ids)
        return {SITES: {site_id: {"v": n + 1, "seen": total}}, "GENERAL": {"last": n}}


def model(ids):
    return start(ids, [0] * len(ids), {"total": 0})


def same_error(ctx, got, error, **info):
    want = ERRORS[error]()
    if error == "stop" and type(got) is RuntimeError and "StopIteration" in str(got):
        return  # what Python makes of it in a generator
    ctx.check(
        type(got) is type(want) and got.args == want.args,
        "not the error of the controller came out",
        got=repr(got), expected=repr(want), **info,
    )


def attempt(fn):
    try:
        return fn(), None
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        return None, e


def expected_run(case, make_runner):
    """The history without faults; C02 and C03 judge whether it is right."""
    controller = Counting(case["ids"], case["error"])
    result = make_runner().run(build_state(model(case["ids"])), controller, case["steps"])
    return history(result), controller.calls


def after_failure(ctx, case, runner, controller, initial, states, **info):
    """What is left of a run that failed, and runs after it."""
    ids = case["ids"]
    ctx.equal(content(initial), model(ids), "the failed run changed the state it was given",
              **info)
    if controller.result is not None:
        got = history(controller.result)
        ctx.equal(got, states[: len(got)], "the result of the failed run holds steps that "
                  "were not completed", **info)
    controller.faults = set()
    controller.calls = []
    result = runner.run(initial, controller, case["steps"])
    ctx.equal(history(result), states, "a run after a failed one differs (same objects)",
              **info)
    ctx.equal(content(result.output), states[-1], "the output of a later run differs", **info)
    ctx.equal(content(initial), model(ids), "a run changed the state it was given", **info)


def _sequential(case, ctx):
    cls = SynchronousRunner if case["kind"] == "serial" else AsynchronousRunner
    states, calls = expected_run(case, cls)
    faults = [(k,) for k in range(len(calls))]
    if case.get("twice"):
        faults += list(itertools.combinations(range(len(calls)), 2))
    for fault in faults:
        ctx.at(fault=fault)
        runner = cls()
        initial = build_state(model(case["ids"]))
        controller = Counting(case["ids"], case["error"], fault)
        # each fault of the set ends one attempt
        result, error = attempt(lambda: runner.run(initial, controller, case["steps"]))
        ctx.check(result is None, "a run of a failing controller succeeded", fault=fault)
        same_error(ctx, error, case["error"], fault=fault)
        if len(fault) == 1:
            ctx.equal(controller.calls, calls[: fault[0] + 1],
                      "the controller was called in another way before, or after, it failed",
                      fault=fault)
        else:
            attempt(lambda: runner.run(initial, controller, case["steps"]))
        after_failure(ctx, case, runner, controller, initial, states, fault=fault)
        # and by a fresh runner and controller in the same process
        again, _ = expected_run(case, cls)
        ctx.equal(again, states, "a run after a failed one differs", fault=fault)
        ctx.state((case["kind"], case["ids"], case["steps"], fault))
        ctx.step(len(controller.calls))
        ctx.trace(2)
        ctx.outcome((case["kind"], fault))
    ctx.count("faults", len(faults))


def _parallel(case, ctx):
    ids, steps = case["ids"], case["steps"]
    states, _ = expected_run(case, SynchronousRunner)
    points = list(itertools.product(ids, range(steps)))
    # one failing site, and two at once, in the same step
    faults = [(p,) for p in points] + [
        pair for pair in itertools.combinations(points, 2) if pair[0][1] == pair[1][1]
    ]
    # and with faults that pass, so that whoever tries again succeeds
    for fault, passing in [(f, p) for p in (False, True) for f in faults
                           if not p or len(f) == 1]:
        ctx.at(fault=fault, passing=passing)

        def body(chooser):
            with vpool.controlled(cpus=case["workers"]) as pool:
                runner = SynchronousRunner(parallel=True, workers=case["workers"])
                initial = build_state(model(ids))
                controller = Counting(ids, case["error"], fault, passing)
                result, error = attempt(lambda: runner.run(initial, controller, steps))
                left = sum(len(p.workers) for p in pool.pools)
                failed = list(pool.schedule)
                ctx.check(result is None, "a run of a failing controller succeeded",
                          fault=fault)
                same_error(ctx, error, case["error"], fault=fault)
                ctx.equal(left, 0, "the failed run left workers behind", fault=fault)
                after_failure(ctx, case, runner, controller, initial, states, fault=fault)
                return failed

        def check(schedule, chooser):
            ctx.state((case["kind"], ids, fault, passing, schedule))
            ctx.step(len(schedule))
            ctx.trace(2)
            ctx.outcome((len(schedule), fault))

        out = ex.explore(body, check, deviations=case["deviations"], ctx=ctx)
        ctx.count("schedules", out.runs)
        ctx.equal(expected_run(case, SynchronousRunner)[0], states,
                  "a serial run after a failed one differs", fault=fault)
    ctx.count("faults", len(faults))


def _real(case, ctx):
    """On actual pools."""
    ids, steps = case["ids"], case["steps"]
    states, _ = expected_run(case, SynchronousRunner)
    for fault, passing in itertools.product(itertools.product(ids, range(steps)),
                                            (False, True)):
        ctx.at(fault=fault, passing=passing)
        runner = SynchronousRunner(parallel=True, workers=case["workers"])
        initial = build_state(model(ids))
        controller = Counting(ids, case["error"], [fault], passing)
        result, error = attempt(lambda: runner.run(initial, controller, steps))
        ctx.check(result is None, "a run of a failing controller succeeded", fault=fault)
        same_error(ctx, error, case["error"], fault=fault)
        ctx.equal(len(multiprocessing.active_children()), 0,
                  "the failed run left processes behind", fault=fault)
        after_failure(ctx, case, runner, controller, initial, states, fault=fault)
        ctx.equal(len(multiprocessing.active_children()), 0, "a run left processes behind")
        ctx.state(("real", fault, passing, case["workers"]))
        ctx.step(len(states))
        ctx.trace(2)
    ctx.count("real_pool_faults", 2 * len(ids) * steps)


class Plain(StructureArtist):
    """Pictures of one colour, by the number in the state; some of them fail."""

    def __init__(self, error, faults=(), mark=None):
        self.error, self.faults, self.mark = error, set(faults), mark

    def get_img(self, state, **kwargs):
        n = state.get_site_state(0)["n"]
        if n in self.faults and struck(self.mark):
            raise ERRORS[self.error]()
        return Image.new("RGB", (4, 4), (60 * n + 10, 0, 0))


def frames_of(path):
    with Image.open(path) as img:
        return [f.convert("RGB").getpixel((1, 1))[0] for f in ImageSequence.Iterator(img)]


def listing():
    out = {}
    for folder, _, names in os.walk("."):
        for name in names:
            with open(os.path.join(folder, name), "rb") as f:
                out[os.path.join(folder, name)] = f.read()
    return out


def _animation(case, ctx):
    n = case["frames"]
    result = SimulationResult(build_state({SITES: {0: {"n": 0}}, "GENERAL": {}}))
    for i in range(1, n):
        result.add_step({0: {"n": i}})
    before_states = history(result)
    want = [60 * i + 10 for i in range(n)]
    faults = [()] + [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2))
    # files of the user, of any name, are no business of an animation
    user = ["mine.txt", "old.gif", *(f"tmp_pylat_step_{i}.png" for i in range(n))]
    for with_files, passing in itertools.product((False, True), repeat=2):
        for fault in faults:
            if passing and len(fault) != 1:
                continue
            ctx.at(fault=fault, with_files=with_files, passing=passing)
            for name in os.listdir("."):
                os.unlink(name)
            mark = mark_of_fault() if passing else None
            if with_files:
                for name in user:
                    with open(name, "w", encoding="utf-8") as f:
                        f.write(f"content of {name}")
            before = listing()

            def body(chooser):
                with vpool.controlled(cpus=2):
                    artist = ResultArtist(Plain(case["error"], fault, mark), result)
                    return attempt(lambda: artist.to_gif("out.gif"))

            _, error = ex.run_with(ex.Chooser(), body)
            if passing and os.path.exists(mark):
                os.unlink(mark)
            if fault:
                ctx.check(error is not None, "an animation of a failing artist succeeded",
                          fault=fault)
                same_error(ctx, error, case["error"], fault=fault)
                ctx.equal(listing(), before, "a failed animation left or changed files",
                          fault=fault)
            ctx.equal(history(result), before_states, "the animation changed the result")
            with vpool.controlled(cpus=2):
                ResultArtist(Plain(case["error"]), result).to_gif("out.gif")
            ctx.equal(frames_of("out.gif"), want, "an animation after a failed one differs",
                      fault=fault)
            os.unlink("out.gif")
            ctx.equal(listing(), before, "an animation left or changed other files",
                      fault=fault)
            ctx.state((n, fault, with_files, passing))
            ctx.step(n)
            ctx.trace(2)
            ctx.outcome(repr(error))
    ctx.count("faults", 2 * (len(faults) - 1))


def _setup(case, ctx):
    """Sites, builders and criteria of the user that fail while something is put together."""
    from pylattica.core.neighborhood_builders import (
        NeighborhoodBuilder,
        StochasticNeighborhoodBuilder,
    )
    from pylattica.core.periodic_structure import PeriodicStructure
    from pylattica.discrete.discrete_step_analyzer import DiscreteStepAnalyzer
    from pylattica.structures.square_grid.lattice import SquareGridLattice2D

    struct = PeriodicStructure.build_from(
        SquareGridLattice2D(), [2, 2], {"A": [(0, 0)]}
    )
    sites = [dict(s) for s in struct.sites()]

    class Failing(NeighborhoodBuilder):
        def __init__(self, at):
            self.at, self.n = at, 0

        def get_neighbors(self, curr_site, struct):
            self.n += 1
            if self.n - 1 == self.at:
                raise ERRORS[case["error"]]()
            return [(curr_site["_site_id"], 1)]

    for at in range(5):
        for wrap in (False, True):
            builder = Failing(at)
            if wrap:
                builder = StochasticNeighborhoodBuilder([builder])
            got, error = attempt(lambda: builder.get(struct))
            if at < 4:
                same_error(ctx, error, case["error"], at=at, wrap=wrap)
            else:
                ctx.check(error is None, f"a builder that works failed: {error!r}", wrap=wrap)
            ctx.equal([dict(s) for s in struct.sites()], sites,
                      "the structure changed while neighbors were looked for")
            ctx.step()
            ctx.trace()
            ctx.state((at, wrap))

    state = build_state(start([0, 1, 2], [1, 2, 3]))
    before = content(state)
    for at in range(4):
        def criterion(site_state):
            if site_state["v"] == at:
                raise ERRORS[case["error"]]()
            return True

        analyzer = DiscreteStepAnalyzer()
        got, error = attempt(lambda: analyzer.get_sites(state, state_criteria=[criterion]))
        if at:
            same_error(ctx, error, case["error"], at=at)
        else:
            ctx.equal(sorted(got), [0, 1, 2], "wrong sites")
        ctx.equal(content(state), before, "the state changed while it was analyzed")
        ctx.step()
        ctx.trace()
        ctx.state(("criterion", at))


def run(case, ctx):
    {"serial": _sequential, "asynchronous": _sequential, "parallel": _parallel,
     "real": _real, "animation": _animation, "setup": _setup}[case["kind"]](case, ctx)
