"""Synchronous steps: every site once, from the state before the step."""

import contextlib
import io
import itertools

from pylattica.core.runner import SynchronousRunner

from ..rules import RULES, clone, make_rule, start, sync_run
from ..sut import (
    RuleController,
    SimulationResult,
    build_state,
    content,
    history,
)

BOUNDS = (
    "all valuations over {0..3} of up to 3 sites (4 sites over {0..2}) x rules x up to 4 "
    "steps; runs of 2600 steps, and of 5-130 steps on 10-700 sites; with and without verbose output; all assignments of 13 update forms to 3 sites (among them dictionaries that the controller uses again); contiguous and other site ids"
)
ASSUMPTIONS = ["controllers are deterministic functions of the site and the state"]

FORMS = [
    "own",
    "own_new_key",
    "odd_keys",
    "as_sites",
    "as_ids",
    "sparse",
    "with_general",
    "only_general",
    "push",
    "exchange",
    "nothing",
    "kept_own",
    "kept_all",
]


def cases(tier):
    out = []
    for rule in RULES:
        for ids, levels in (
            ([], 1),
            ([0], 4),
            ([3], 4),
            ([0, 1], 4),
            ([5, 2], 4),
            ([0, 1, 2], 4),
            ([8, 0, 3], 3),
            ([0, 1, 2, 3], 3),
        ):
            out.append({"rule": rule, "ids": ids, "levels": levels, "steps": 4})
        out.append({"rule": rule, "ids": list(range(40)), "levels": 0, "steps": 12})
        out.append({"rule": rule, "ids": [(7 * i + 3) % 700 * 1001 for i in range(700)],
                    "levels": 0, "steps": 5})
        out.append({"rule": rule, "ids": list(range(9, -1, -1)), "levels": 0, "steps": 130})
    for first in FORMS:
        out.append({"forms": first, "ids": [0, 1, 2], "steps": 3})
    for rule in ("own", "sparse", "nothing"):
        out.append({"long": rule, "ids": [3, 1], "steps": 2600})
    for rule in ("own", "with_general", "grow"):
        out.append({"reuse": rule, "ids": [0, 1, 2]})
    if tier == "thorough":
        for rule in RULES:
            out.append({"rule": rule, "ids": [0, 1, 2, 3], "levels": 5, "steps": 6})
            out.append({"rule": rule, "ids": [4, 0, 2, 9, 1], "levels": 3, "steps": 6})
        for first in FORMS:
            for second in FORMS:
                out.append({"forms": [first, second], "ids": [6, 1, 2, 0], "steps": 3})
    return out


class Result(SimulationResult):
    """A result class of the user."""


class Controller(RuleController):
    def instantiate_result(self, starting_state):
        return Result(starting_state)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def one_run(ctx, runner, rule, ids, values, steps, general=None):
    general = {"total": 0} if general is None else general
    model = start(ids, values, general)
    expected = sync_run(model, make_rule(rule, ids), steps)
    initial = build_state(model)
    controller = Controller(rule, ids)
    if sum(values) % 2:
        with quiet():
            result = runner.run(initial, controller, steps, verbose=True)
    else:
        result = runner.run(initial, controller, steps)

    ctx.check(isinstance(result, Result), "the result is not the one of the controller")
    ctx.equal(len(result), steps + 1, "wrong number of steps in the result",
              rule=rule, values=values)
    ctx.equal(content(initial), model, "the run changed the state it was given",
              rule=rule, values=values)
    got = history(result)
    for i, (g, e) in enumerate(zip(got, expected)):
        ctx.equal(g, e, f"wrong state at step {i}", rule=rule, ids=ids, values=values,
                  before=expected[max(0, i - 1)])
        ctx.state((rule, ids, e))
    ctx.equal(content(result.output), expected[-1], "wrong output", rule=rule)
    ctx.equal(content(result.last_step), expected[-1], "wrong last step", rule=rule)
    ctx.equal(content(result.first_step), model, "wrong first step", rule=rule)

    # every site that was there at the start of a step is visited once in it
    at = 0
    for i in range(steps):
        sites = list(expected[i]["SITES"])
        visited = controller.visits[at : at + len(sites)]
        ctx.equal(sorted(visited), sorted(sites), f"wrong visits in step {i}", rule=rule)
        at += len(sites)
    ctx.equal(len(controller.visits), at, "more visits than sites", rule=rule)
    ctx.equal(
        controller.pre_runs,
        [(0, model)],
        "the controller was not prepared once, before the first step",
        rule=rule,
    )
    # what the caller does to its state afterwards does not reach the result
    for s in ids:
        initial.set_site_state(s, {"v": 99, "other": 1})
    initial.set_general_state({"total": 77})
    ctx.equal(history(result), got, "the result shares state with the caller", rule=rule)
    ctx.step(steps)
    ctx.trace()
    ctx.outcome((rule, expected[-1]))
    return result


def run(case, ctx):
    ids = case["ids"]
    runner = SynchronousRunner()
    if "reuse" in case:
        return _reuse(case, ctx)
    if "long" in case:
        return _long(case, ctx)
    if "forms" in case:
        fixed = case["forms"]
        fixed = [fixed] if isinstance(fixed, str) else fixed
        for rest in itertools.product(FORMS, repeat=len(ids) - len(fixed)):
            rule = [*fixed, *rest]
            ctx.at(rule=rule)
            for values in ([1, 2, 3, 4], [0, 3, 0, 1], [2, 0, 0, 0]):
                one_run(ctx, runner, rule, ids, values[: len(ids)], case["steps"])
        return
    rule = case["rule"]
    if case["levels"] == 0:
        values = [(i * i + 3) % 5 for i in range(len(ids))]
        for v in (values, [1] + [0] * (len(ids) - 1)):
            one_run(ctx, runner, rule, ids, v, case["steps"])
        return
    for values in itertools.product(range(case["levels"]), repeat=len(ids)):
        ctx.at(values=values)
        for steps in range(case["steps"] + 1) if sum(values) < 2 else (case["steps"],):
            one_run(ctx, SynchronousRunner(), rule, ids, values, steps)
    ctx.sample({"rule": rule, "ids": ids, "last": list(values)})


def _long(case, ctx):
    """However many steps a run has, none is lost."""
    ids, rule, steps = case["ids"], case["long"], case["steps"]
    model = start(ids, [1, 2], {"total": 0})
    result = SynchronousRunner().run(build_state(model), RuleController(rule, ids), steps)
    expected = sync_run(model, make_rule(rule, ids), steps)
    ctx.equal(len(result), steps + 1, "wrong number of steps in the result")
    n = 0
    for i, state in enumerate(result.steps()):
        ctx.equal(content(state), expected[i], f"wrong state at step {i} of many")
        n += 1
    ctx.equal(n, steps + 1, "wrong number of steps in the sequence")
    for i in (0, 1, 99, 100, 101, 999, 1000, 1023, 1024, 1025, steps - 1, steps):
        ctx.equal(content(result.get_step(i)), expected[i], f"wrong state at step {i} of many")
    ctx.equal(content(result.first_step), expected[0], "wrong first step")
    ctx.equal(content(result.last_step), expected[-1], "wrong last step")
    ctx.equal(content(result.output), expected[-1], "wrong output")
    ctx.step(steps)
    ctx.trace()
    ctx.state((rule, expected[-1]))


def _reuse(case, ctx):
    """One runner and one controller object for several runs: no run affects another."""
    ids, rule = case["ids"], case["reuse"]
    runner = SynchronousRunner()
    controller = RuleController(rule, ids)
    kept = []
    for values in itertools.product(range(3), repeat=len(ids)):
        model = start(ids, values, {"total": sum(values) % 3})
        initial = build_state(model)
        result = runner.run(initial, controller, 2)
        expected = sync_run(clone(model), make_rule(rule, ids), 2)
        ctx.equal(history(result), expected, "a run depends on the runs before",
                  values=values)
        kept.append((result, expected))
        # a run from a state that another run arrived at
        more = runner.run(result.last_step, controller, 1)
        again = sync_run(expected[-1], make_rule(rule, ids), 1)
        ctx.equal(history(more), again, "a continued run differs", values=values)
        ctx.state((rule, again))
        ctx.step(3)
        ctx.trace(2)
    for result, expected in kept:
        ctx.equal(history(result), expected, "a later run changed an earlier result")
