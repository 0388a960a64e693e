"""A result reports the same history through every access path, in every order of access."""

import copy
import itertools

from pylattica.core import BasicController, SimulationResult
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner

from ..rules import GENERAL, SITE_ID, SITES, apply_batch, clone
from ..sut import build_state, content

BOUNDS = (
    "all sequences of up to 4 operations (adding steps in 6 forms, loading steps at 3 "
    "intervals, setting the output, reading and changing what was read) after 4 prepared histories; every load "
    "interval and every read order over histories of up to 12 steps; histories of 2600 steps"
)
ASSUMPTIONS = [
    "steps that are asked for exist",
    "values of sites are replaced, not changed in place",
]

INITIAL = {
    SITES: {0: {SITE_ID: 0, "v": 0, "l": [1]}, 4: {SITE_ID: 4, "v": 1}},
    GENERAL: {"g": 0, "d": {"x": [1]}},
}

UPDATES = [
    {0: {"v": 1}},
    {SITES: {4: {"v": 2, "w": 1}}, GENERAL: {"g": 1}},
    {},
    {SITES: {}, GENERAL: {"h": [2]}},
    {SITES: {0: {"l": [3]}}},
    {9: {"v": 5}, 0: {"v": 6}},
]

OPS = (
    [["add", i] for i in range(len(UPDATES))]
    + [["load", k] for k in (1, 2, 3)]
    + [["get_all"], ["get_spoil", 0], ["get_spoil", -1], ["iterate"], ["iterate_spoil"],
       ["iterate_partly"], ["last_spoil"], ["output"]]
)

PREPARED = [[], [0], [1, 4], [0, 5, 3, 1, 2]]


def cases(tier):
    out = []
    depth = 4 if tier == "quick" else 5
    for p in range(len(PREPARED)):
        for i in range(len(OPS)):
            out.append({"prepared": p, "first": i, "depth": depth - 1 if p == 3 else depth})
    for n in range(0, 13 if tier == "quick" else 30):
        out.append({"kind": "intervals", "steps": n})
    for n in range(1, 5 if tier == "quick" else 7):
        out.append({"kind": "orders", "steps": n})
    out.append({"kind": "long", "steps": 130})
    for interval in (None, 1, 13, 1000):
        out.append({"kind": "very long", "steps": 2600, "interval": interval})
    for steps in (0, 1, 3):
        out.append({"kind": "runs", "steps": steps})
    return out


def spoil(state):
    for s in state.site_ids():
        state.get_site_state(s)["direct"] = "spoilt"
        state.set_site_state(s, {"v": "spoilt", "spoilt": 1})
    state.get_general_state()["direct"] = "spoilt"
    state.set_general_state({"g": "spoilt"})
    state.set_site_state(1234, {})


class Model:
    def __init__(self):
        self.states = [clone(INITIAL)]
        self.states[0] = copy.deepcopy(INITIAL)

    def add(self, update):
        update = copy.deepcopy(update)
        if SITES not in update and GENERAL not in update:
            update = {SITES: update}
        self.states.append(apply_batch(copy.deepcopy(self.states[-1]), update))


def look(ctx, result, model, ops):
    want = model.states
    ctx.equal(len(result), len(want), "wrong length", operations=ops)
    for i in range(len(want)):
        ctx.equal(content(result.get_step(i)), want[i], f"wrong step {i}", operations=ops)
    ctx.equal([content(s) for s in result.steps()], want, "wrong sequence of steps",
              operations=ops)
    kept = list(result.steps())
    ctx.equal([content(s) for s in kept], want, "wrong collected steps", operations=ops)
    ctx.equal(content(result.last_step), want[-1], "wrong last step", operations=ops)
    ctx.equal(content(result.first_step), want[0], "wrong first step", operations=ops)
    ctx.equal(content(result.initial_state), want[0], "wrong initial state",
              operations=ops)


def perform(ctx, result, model, op, ops):
    kind = op[0]
    if kind == "add":
        result.add_step(copy.deepcopy(UPDATES[op[1]]))
        model.add(UPDATES[op[1]])
    elif kind == "load":
        result.load_steps(op[1])
    elif kind == "get_all":
        for i in reversed(range(len(model.states))):
            ctx.equal(content(result.get_step(i)), model.states[i], f"wrong step {i}",
                      operations=ops)
    elif kind == "get_spoil":
        i = op[1] % len(model.states)
        spoil(result.get_step(i))
    elif kind == "iterate":
        ctx.equal([content(s) for s in result.steps()], model.states,
                  "wrong sequence of steps", operations=ops)
    elif kind == "iterate_spoil":
        for s, want in zip(result.steps(), model.states):
            ctx.equal(content(s), want, "wrong step in the sequence", operations=ops)
            spoil(s)
    elif kind == "iterate_partly":
        it = iter(result.steps())
        ctx.equal(content(next(it)), model.states[0], "wrong first in the sequence",
                  operations=ops)
        it2 = iter(result.steps())
        ctx.equal(content(next(it2)), model.states[0], "wrong first in the sequence",
                  operations=ops)
    elif kind == "last_spoil":
        spoil(result.last_step)
    elif kind == "output":
        # as the runners do at the end of a run
        result.set_output(build_state(model.states[-1]))


def fresh(updates=()):
    result = SimulationResult(build_state(INITIAL))
    model = Model()
    for u in updates:
        result.add_step(copy.deepcopy(u))
        model.add(u)
    return result, model


def run(case, ctx):
    kind = case.get("kind")
    if kind == "intervals":
        return _intervals(case, ctx)
    if kind == "orders":
        return _orders(case, ctx)
    if kind == "long":
        return _long(case, ctx)
    if kind == "very long":
        return _very_long(case, ctx)
    if kind == "runs":
        return _runs(case, ctx)
    for n in range(case["depth"]):
        for rest in itertools.product(OPS, repeat=n):
            ops = [OPS[case["first"]], *rest]
            ctx.at(prepared=PREPARED[case["prepared"]], operations=ops)
            result, model = fresh(UPDATES[i] for i in PREPARED[case["prepared"]])
            for op in ops:
                perform(ctx, result, model, op, ops)
                ctx.step()
            look(ctx, result, model, ops)
            ctx.state((case["prepared"], ops))
            ctx.outcome(model.states)
            ctx.trace()
    ctx.sample(ops)


def _history(n):
    return [
        {SITES: {(3 * i) % 5: {"v": i}}, GENERAL: {"g": i}} if i % 3 else {0: {"v": -i}}
        for i in range(n)
    ]


def _intervals(case, ctx):
    """Loading at any interval, or at two after each other, and then adding more steps."""
    n = case["steps"]
    for a in range(1, n + 2):
        for b in (None, 1, 2, a + 1):
            result, model = fresh(_history(n))
            result.load_steps(a)
            if b is not None:
                result.load_steps(b)
            look(ctx, result, model, ["load", a, b])
            more = {0: {"v": "more"}}
            result.add_step(copy.deepcopy(more))
            model.add(more)
            look(ctx, result, model, ["load", a, b, "add"])
            result.load_steps(a)
            look(ctx, result, model, ["load", a, b, "add", "load"])
            ctx.state((n, a, b))
            ctx.step(3)
            ctx.trace()
    result, model = fresh(_history(n))
    result.load_steps()
    look(ctx, result, model, ["load"])


def _orders(case, ctx):
    """Reading the steps in any order, with any subset of them loaded."""
    n = case["steps"]
    for order in itertools.permutations(range(n + 1)):
        for interval in (None, 1, 2):
            result, model = fresh(_history(n))
            if interval:
                result.load_steps(interval)
            for i in order:
                got = result.get_step(i)
                ctx.equal(content(got), model.states[i], f"wrong step {i}", order=order,
                          interval=interval)
                spoil(got)
                ctx.step()
            look(ctx, result, model, ["orders", order, interval])
            ctx.state((order, interval))
            ctx.trace()


def _long(case, ctx):
    result, model = fresh(_history(case["steps"]))
    look(ctx, result, model, ["long"])
    for interval in (7, 50, 100, 3):
        result.load_steps(interval)
        look(ctx, result, model, ["long", interval])
        ctx.step()
    ctx.trace()
    ctx.state(model.states[-1])


def _very_long(case, ctx):
    """No number of steps is too large to be kept."""
    result, model = fresh(_history(case["steps"]))
    for repeat in range(3):
        if case["interval"] is not None:
            result.load_steps(case["interval"])
        n = len(model.states) - 1
        ctx.equal(len(result), n + 1, "wrong length")
        for i in (0, 1, 50, 99, 100, 101, 128, 255, 256, 257, 999, 1000, 1001, 1024, 2048, n - 1,
                  n, 1500, 3):
            for _ in range(2):
                got = result.get_step(i)
                ctx.equal(content(got), model.states[i], f"wrong step {i} of many")
                spoil(got)
        ctx.equal([content(s) for s in result.steps()], model.states,
                  "wrong sequence of many steps")
        ctx.equal(content(result.last_step), model.states[-1], "wrong last step of many")
        ctx.equal(content(result.first_step), model.states[0], "wrong first step of many")
        for update in UPDATES:
            result.add_step(copy.deepcopy(update))
            model.add(update)
        ctx.step(n)
        ctx.state((case["interval"], n))
    ctx.trace()


def _runs(case, ctx):
    """The results of runs, and what is done with them afterwards."""
    n = case["steps"]
    for make in (SynchronousRunner, AsynchronousRunner):
        for depth in range(3):
            for ops in itertools.product(OPS, repeat=depth):
                ctx.at(runner=make.__name__, operations=ops)
                result = make().run(build_state(INITIAL), Count(), n)
                model = Model()
                for i in range(n):
                    sites = (0, 4) if make is SynchronousRunner else (4,)
                    model.add({s: {"c": (s, i)} for s in sites})
                for op in ops:
                    perform(ctx, result, model, op, ops)
                    ctx.step()
                look(ctx, result, model, ops)
                ctx.state((make.__name__, n, ops))
                ctx.trace()


class Count(BasicController):
    def get_random_site(self, state):
        return 4

    def get_state_update(self, site_id, prev_state):
        _, n = prev_state.get_site_state(site_id).get("c", (0, -1))
        return {"c": (site_id, n + 1)}
