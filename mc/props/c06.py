"""Saving and loading a result or a state loses nothing."""

import copy
import itertools
import json
import os

from pylattica.core import SimulationResult, SimulationState
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner

from .. import vpool
from ..rules import GENERAL, RULES, SITE_ID, SITES, apply_batch, start
from ..sut import RuleController, build_state, content, history

BOUNDS = (
    "all histories of up to 3 steps from 13 kinds of updates over 3 initial states; results "
    "of synchronous, parallel and asynchronous runs with every rule of mc.rules; as "
    "dictionaries, as JSON text and as files; once and twice; up to 1500 "
    "sites and 700 steps of fixed updates"
)
ASSUMPTIONS = ["states hold values that JSON can represent, under string keys"]

INITIAL = [
    {SITES: {0: {SITE_ID: 0, "v": 0}}, GENERAL: {}},
    {
        SITES: {
            5: {SITE_ID: 5, "v": 1.5, "s": "x", "n": None},
            0: {SITE_ID: 0, "b": True, "l": [1, [2, {"k": None}]]},
            12: {SITE_ID: 12},
        },
        GENERAL: {"g": {"deep": [1, 2]}, "t": -1},
    },
    {SITES: {}, GENERAL: {}},
]

UPDATES = [
    {0: {"v": 1}},
    {0: {"v": 2, "w": [1]}, 12: {"v": 0.1}},
    {},
    {SITES: {5: {"v": "text"}}, GENERAL: {"g": 3}},
    {SITES: {0: {"v": None}}},
    {GENERAL: {"t": {"a": 1}}},
    {SITES: {}, GENERAL: {}},
    {GENERAL: {"t": 7}, SITES: {0: {"b": False}, 100: {"new": 1}}},
    {7: {}},
    {SITES: {10: {"v": 10}, 9: {"v": 9}}, GENERAL: {"0": "zero"}},
    {0: {"SITES": 1, "GENERAL": 2}},
    {3: {"v": 1e-12}, 2: {"v": 12345678901234567890}},
    {-2: {"v": float("inf"), "\u00fc": "\u2192\n\"\\", "": -0.5}, 0: {"v": float("-inf")}},
]


def cases(tier):
    out = []
    for i in range(len(INITIAL)):
        for u in range(len(UPDATES)):
            out.append({"kind": "history", "initial": i, "first": u,
                        "depth": 4 if tier == "quick" else 5})
        out.append({"kind": "state", "initial": i})
    for rule in [r for r in RULES if r != "odd_keys"]:  # which JSON has no keys for
        for n in (0, 1, 3):
            out.append({"kind": "run", "rule": rule, "ids": [4 * i for i in range(n)]})
    out.append({"kind": "default_name"})
    for size, steps in ((600, 40), (5, 700), (1500, 3)):
        out.append({"kind": "large", "size": size, "steps": steps})
    return out


def dict_again(x, cls):
    return cls.from_dict(copy.deepcopy(x.as_dict()))


def json_again(x, cls):
    return cls.from_dict(json.loads(json.dumps(x.as_dict())))


def file_again(x, cls):
    path = os.path.abspath("saved.json")
    if os.path.exists(path):
        os.unlink(path)
    x.to_file(path)
    return cls.from_file(path)


WAYS = [dict_again, json_again, file_again]


def same_history(ctx, result, states, what, **info):
    ctx.equal(len(result), len(states), f"{what}: wrong length", **info)
    ctx.equal(history(result), states, f"{what}: wrong steps", **info)
    ctx.equal([content(s) for s in result.steps()], states, f"{what}: wrong sequence",
              **info)
    ctx.equal(content(result.last_step), states[-1], f"{what}: wrong last step", **info)
    ctx.equal(content(result.initial_state), states[0], f"{what}: wrong start", **info)


def round_trips(ctx, result, states, ways=WAYS, **info):
    for way in ways:
        what = way.__name__
        loaded = way(result, SimulationResult)
        ctx.check(type(loaded) is SimulationResult, f"{what}: not a result", **info)
        same_history(ctx, result, states, f"original after {what}", **info)
        same_history(ctx, loaded, states, what, **info)
        again = way(loaded, SimulationResult)
        same_history(ctx, again, states, f"{what}, twice", **info)
        # a loaded result goes on like the original
        loaded.add_step({0: {"v": "more"}})
        loaded.load_steps(2)
        after = apply_batch(copy.deepcopy(states[-1]), {SITES: {0: {"v": "more"}}})
        same_history(ctx, loaded, states + [after], f"{what}, continued", **info)
        same_history(ctx, result, states, f"original after {what}, continued", **info)
        ctx.step(2)
        ctx.trace()


def run(case, ctx):
    if case["kind"] == "state":
        return _state(case, ctx)
    if case["kind"] == "run":
        return _run(case, ctx)
    if case["kind"] == "default_name":
        return _default_name(ctx)
    if case["kind"] == "large":
        return _large(case, ctx)
    initial = INITIAL[case["initial"]]
    for n in range(case["depth"]):
        for rest in itertools.product(range(len(UPDATES)), repeat=n):
            steps = [case["first"], *rest]
            ctx.at(initial=case["initial"], steps=steps)
            result = SimulationResult(build_state(initial))
            states = [copy.deepcopy(initial)]
            for i in steps:
                result.add_step(copy.deepcopy(UPDATES[i]))
                batch = copy.deepcopy(UPDATES[i])
                if SITES not in batch and GENERAL not in batch:
                    batch = {SITES: batch}
                states.append(apply_batch(copy.deepcopy(states[-1]), batch))
            # files only for the shorter histories: they are the slow part
            ways = WAYS if n < 2 else WAYS[:2] if n < 3 else WAYS[1:2]
            round_trips(ctx, result, states, ways, steps=steps)
            ctx.state((case["initial"], states))
            ctx.outcome(states[-1])
    ctx.sample(steps)


def _state(case, ctx):
    initial = INITIAL[case["initial"]]
    for u in UPDATES:
        state = build_state(initial)
        model = copy.deepcopy(initial)
        batch = copy.deepcopy(u)
        state.batch_update(copy.deepcopy(u))
        if SITES not in batch and GENERAL not in batch:
            batch = {SITES: batch}
        apply_batch(model, batch)
        for way in WAYS[:2]:
            loaded = way(state, SimulationState)
            ctx.equal(content(loaded), model, f"{way.__name__}: wrong state", update=u)
            ctx.check(loaded == state, f"{way.__name__}: not equal to the original")
            ctx.equal(sorted(loaded.site_ids()), sorted(model[SITES]), "wrong ids")
            loaded.set_site_state(0, {"v": "other"})
            loaded.set_general_state({"t": "other"})
            ctx.equal(content(state), model, "loading shares state with the original")
            ctx.step()
            ctx.trace()
        ctx.state(model)


def _run(case, ctx):
    ids, rule = case["ids"], case["rule"]
    values = [(2 * i + 1) % 4 for i in range(len(ids))]
    runs = [("serial", SynchronousRunner(), 3)]
    if ids:
        runs.append(("parallel", SynchronousRunner(parallel=True, workers=2), 3))
        runs.append(("asynchronous", AsynchronousRunner(), 5))
    for name, runner, steps in runs:
        with vpool.controlled(2):
            result = runner.run(
                build_state(start(ids, values, {"total": 0})),
                RuleController(rule, ids),
                steps,
            )
        round_trips(ctx, result, history(result), runner=name)
        ctx.state((name, history(result)))


def _large(case, ctx):
    """Many sites, many steps, long texts and deep values."""
    size = case["size"]
    numbers = [(7 * i + 3) % size * 101 for i in range(size) if size % 7 or i < size // 7]
    deep = 1
    for i in range(60):
        deep = [deep, i] if i % 2 else {"d": deep, "i": i}
    states = [{
        SITES: {s: {SITE_ID: s, "v": i / 7} for i, s in enumerate(numbers)},
        GENERAL: {"text": "\u00e4bc \n" * 20000, "deep": deep, "g": 0.1 + 0.2,
                  "list": list(range(3000))},
    }]
    result = SimulationResult(build_state(states[0]))
    ids = list(states[0][SITES])
    for n in range(1, case["steps"] + 1):
        sites = {ids[(n * k) % len(ids)]: {"v": n / (k + 3), f"k{k % 3}": None} for k in range(4)}
        if n % 7 == 0:
            sites[10**9 + n] = {"new": "x" * n}
        batch = {SITES: sites, GENERAL: {"n": n, f"m{n}": [n]} if n % 3 == 0 else {}}
        result.add_step(copy.deepcopy(batch))
        states.append(apply_batch(
            {SITES: dict(states[-1][SITES]), GENERAL: states[-1][GENERAL]}, batch))
        ctx.step()
    for way in WAYS:
        loaded = way(result, SimulationResult)
        same_history(ctx, result, states, f"original after {way.__name__}")
        same_history(ctx, loaded, states, way.__name__)
        ctx.trace()
    loaded = dict_again(result.last_step, SimulationState)
    ctx.equal(content(loaded), states[-1], "wrong state")
    ctx.state((size, case["steps"]))


def _default_name(ctx):
    result = SimulationResult(build_state(INITIAL[1]))
    result.add_step({0: {"v": 5}})
    path = result.to_file()
    ctx.check(os.path.exists(path), "the file that was saved does not exist", path=path)
    same_history(ctx, SimulationResult.from_file(path), history(result), "default name")
    ctx.trace()
    ctx.step()
    ctx.state("default")
