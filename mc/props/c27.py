"""Objects that are pickled or deeply copied behave as the originals, and share nothing."""

import copy
import os
import pickle
import subprocess
import sys

from pylattica.core import Simulation, SimulationResult, SimulationState
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

from ..rules import GENERAL, SITES
from . import c24
from .c24 import CALLS, WORLDS, World, look, snapshot

BOUNDS = (
    "two sets of 60 objects of all kinds; copied by deepcopy, by pickle with each protocol from "
    "2 on, twice, one object at a time (each of them), all together, and into other processes "
    "with other hash seeds; before any of 104 calls, after each of them (in quick: deepcopy and "
    "pickle 5), and after each of 15 changes; all calls with the copies, and all changes of either"
)
ASSUMPTIONS = ["what the user puts into objects can be copied and pickled itself"]


def not_p(s):
    return s.get(OCC) != "P"


def not_one(s):
    return s["_site_id"] != 1


def make(i):
    w = World(i)
    w.criteria = [not_p, not_one]
    return w


HOW = {"deepcopy": copy.deepcopy}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    HOW[f"pickle {_p}"] = lambda x, p=_p: pickle.loads(pickle.dumps(x, p))
HOW["deepcopy of pickle"] = lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x)))
HOW["pickle of deepcopy"] = lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x)))

FREE = ((0.125, 0.625), (0.375, 0.875))

# changes of what the objects hold, through their interface
CHANGES = {
    "site state": lambda w: w.state.set_site_state(0, {OCC: "new", "n": 1}),
    "new site state": lambda w: w.state.set_site_state(501, {OCC: "new"}),
    "general state": lambda w: w.state.set_general_state({"g": "new"}),
    "batch": lambda w: w.state.batch_update({SITES: {1: {"b": "new"}}, GENERAL: {"q": 1}}),
    "in simulation": lambda w: w.simulation.state.set_site_state(1, {OCC: "newer"}),
    "in initial state": lambda w: w.life_result.initial_state.set_site_state(0, {OCC: "dead"}),
    "step": lambda w: w.result.add_step({0: {OCC: "new"}}),
    "general step": lambda w: w.result.add_step({SITES: {}, GENERAL: {"t": "new"}}),
    "load and step": lambda w: (w.result.load_steps(1), w.result.add_step({1: {OCC: "new"}})),
    "life step": lambda w: w.life_result.add_step({1: {OCC: "alive"}, 2: {OCC: "dead"}}),
    "output": lambda w: w.result.set_output(SimulationState()),
    "site": lambda w: w.struct.add_site("B", FREE[0]),
    "sites": lambda w: [w.struct.add_site("A", p) for p in FREE],
    "grid site": lambda w: w.grid.add_site("A", (0.5, 0.5)),
    "twin site": lambda w: w.twin.add_site("New", FREE[1]),
}
# what can be told about objects that were changed
TOLD = {
    "states": lambda w: [look(w.state), look(w.simulation), w.state == w.simulation.state],
    "results": lambda w: [look(w.result), look(w.life_result), len(w.result),
                          look(w.result.last_step), [look(s) for s in w.result.steps()]],
    "structures": lambda w: [look(w.struct), look(w.twin), look(w.grid)],
    "lookups": lambda w: [
        [s.id_at(p) for p in (*FREE, (0.5, 0.5), *(x["_location"] for x in s.sites()))]
        for s in (w.struct, w.grid, w.twin)],
    "classes": lambda w: [sorted(s.all_site_classes()) for s in (w.struct, w.grid, w.twin)],
    "fractions": lambda w: c24.look(w.result_analyzer.final_phase_fractions()),
    "at": lambda w: look(w.simulation.state_at((0, 0))),
}

SINGLE = sorted(set(vars(make(0))) - {"i"})


def one(op, w):
    return c24.call([w, w], (op, 0))


def _uses(i):
    """Which objects each call looks at."""
    seen = set()

    class Watched(World):
        def __getattribute__(self, name):
            seen.add(name)
            return super().__getattribute__(name)

    w = make(i)
    w.__class__ = Watched
    out = {}
    for op in CALLS:
        seen.clear()
        one(op, w)
        out[op] = set(seen)
    return out


def told(w):
    return {name: copy.deepcopy(fn(w)) for name, fn in TOLD.items()}


def cases(tier):
    out = []
    for how in HOW:
        for i in WORLDS:
            if tier == "thorough" or how in ("deepcopy", "pickle 5"):
                for k in range(8):
                    out.append({"kind": "after", "how": how, "i": i, "part": k, "parts": 8})
            if tier == "thorough" or how in ("deepcopy", "pickle 2", "pickle 5"):
                out.append({"kind": "changes", "how": how, "i": i})
            out.append({"kind": "single", "how": how, "i": i})
    for seed in range(2 if tier == "quick" else 8):
        out.append({"kind": "process", "seed": seed})
    out.append({"kind": "held"})
    if tier == "thorough":
        for i in WORLDS:
            for op in CALLS:
                out.append({"kind": "after two", "how": "pickle 5", "i": i, "first": op})
    return out


def expected(i):
    c24.expect()
    out = {}
    for name in CALLS:
        value, error = c24.EXPECTED[name, i]
        if error:
            raise AssertionError(f"a call fails: {error}")
        out[name] = value
    return out


def _answers(ctx, w, want, message, **info):
    for name in CALLS:
        if name.startswith("parallel") and info.get("after"):
            continue  # starts processes; done once without a call before
        ctx.at(call=name, **info)
        ctx.equal(one(name, w), want[name], message, call=name, **info)
        ctx.step()


def run(case, ctx):
    kind = case["kind"]
    if kind in ("after", "after two"):
        want = expected(case["i"])
        how = HOW[case["how"]]
        if kind == "after":
            firsts = [(op,) for op in list(CALLS)[case["part"] :: case["parts"]]]
            firsts.append(())
        else:
            firsts = [(case["first"], op) for op in CALLS]
        for first in firsts:
            ctx.at(after=first, how=case["how"])
            w = make(case["i"])
            before = snapshot(w)
            for op in first:
                one(op, w)
            twin = how(w)
            ctx.equal(snapshot(twin), before, "a copy differs from the original", after=first)
            _answers(ctx, twin, want, "a copy gives something else than the original",
                     after=first, how=case["how"])
            ctx.equal(snapshot(w), before, "the original changed with the copy", after=first)
            for op in first:
                ctx.equal(one(op, w), want[op],
                          "the original gives something else after it was copied", call=op)
            ctx.state((case["how"], case["i"], first))
            ctx.trace()
        return None
    if kind == "changes":
        return _changes(case, ctx)
    if kind == "single":
        return _single(case, ctx)
    if kind == "process":
        return _process(case, ctx)
    return _held(ctx)


def _changes(case, ctx):
    """Original and copy are changed independently of each other, in every order."""
    how, i = HOW[case["how"]], case["i"]
    fresh = told(make(i))
    alone = {}
    for name, change in CHANGES.items():
        w = make(i)
        change(w)
        alone[name] = told(w)
    for a in CHANGES:
        # copied before, changed after
        w = make(i)
        twin = how(w)
        CHANGES[a](twin)
        ctx.at(change=a, of="the copy")
        ctx.equal(told(w), fresh, "changing the copy changes the original", change=a)
        ctx.equal(told(twin), alone[a], "a copy changes in another way", change=a)
        w = make(i)
        twin = how(w)
        CHANGES[a](w)
        ctx.equal(told(twin), fresh, "changing the original changes the copy", change=a)
        ctx.equal(told(w), alone[a], "what was copied changes in another way", change=a)
        # changed before, copied after, then changed in another way
        for b in CHANGES:
            if a == b:
                continue
            ctx.at(changes=(a, b))
            w = make(i)
            CHANGES[a](w)
            twin = how(w)
            ctx.equal(told(twin), alone[a], "a copy lacks a change", change=a)
            if {a, b} == {"site", "sites"}:
                continue  # the place is taken
            CHANGES[b](twin)
            ctx.equal(told(w), alone[a], "changing the copy changes the original",
                      changes=(a, b))
            reference = make(i)
            CHANGES[a](reference)
            CHANGES[b](reference)
            both = told(reference)
            ctx.equal(told(twin), both, "a copy changes in another way", changes=(a, b))
            CHANGES[b](w)
            ctx.equal(told(w), both, "what was copied changes in another way", changes=(a, b))
            ctx.step(6)
            ctx.state((case["how"], i, a, b))
        ctx.trace()


def _single(case, ctx):
    """One object is a copy, and all others are the originals."""
    want = expected(case["i"])
    how = HOW[case["how"]]
    uses = _uses(case["i"])
    for name in SINGLE:
        w = make(case["i"])
        before = snapshot(w)
        setattr(w, name, how(getattr(w, name)))
        for op in CALLS:
            if name in uses[op]:
                ctx.at(call=op, object=name)
                ctx.equal(one(op, w), want[op], "a copy gives something else than the original",
                          object=name, how=case["how"], call=op)
                ctx.step()
        ctx.equal(snapshot(w), before, "an object changed", object=name)
        ctx.state((case["how"], case["i"], name))
        ctx.trace()


_CHILD = """
import os, pickle, sys
sys.path.insert(0, {verif!r})
from mc import env
env.install()
loaded = pickle.load(sys.stdin.buffer)
from mc.props import c24, c27
out = []
for w in loaded:
    first = c24.snapshot(w)
    answers = {{name: c27.one(name, w) for name in c24.CALLS}}
    c27.CHANGES["sites"](w)
    c27.CHANGES["batch"](w)
    c27.CHANGES["step"](w)
    out.append((first, answers, c27.told(w), w))
with os.fdopen({fd}, "wb") as f:
    pickle.dump(out, f)
"""


def _process(case, ctx):
    """To another process, and back."""
    worlds = [make(i) for i in WORLDS]
    before = [snapshot(w) for w in worlds]
    r, fd = os.pipe()
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    child = subprocess.Popen(
        [sys.executable, "-B", "-c", _CHILD.format(verif=verif, fd=fd)],
        stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=[fd],
        env={**os.environ, "PYTHONHASHSEED": str(1 + case["seed"])},
    )
    os.close(fd)
    child.stdin.write(pickle.dumps(worlds))
    child.stdin.close()
    with os.fdopen(r, "rb") as f:
        data = f.read()
    error = child.stderr.read().decode()[-600:]
    child.wait()
    ctx.check(child.returncode == 0, "objects cannot be used in another process", error=error)
    for i, (first, answers, changed, back) in enumerate(pickle.loads(data)):
        ctx.equal(first, before[i], "objects differ in another process", world=i)
        want = expected(i)
        for name in CALLS:
            ctx.equal(answers[name], want[name], "objects behave differently in another process",
                      call=name, world=i)
            ctx.step()
        reference = make(i)
        for name in ("sites", "batch", "step"):
            CHANGES[name](reference)
        ctx.equal(changed, told(reference), "objects change differently in another process")
        ctx.equal(told(back), told(reference), "objects differ when they come back")
        ctx.state(("process", case["seed"], i))
        ctx.trace()


def _held(ctx):
    """Objects that hold each other still do after copying."""
    for how, fn in HOW.items():
        w = make(0)
        for name, fresh in {
            "simulation": Simulation(w.state, w.struct),
            "result": w.result,
            "state": w.state,
            "structure": w.struct,
        }.items():
            pair = fn([fresh, fresh])
            ctx.check(pair[0] is pair[1], "copies of one object are two", how=how, of=name)
            ctx.equal(look(pair[0]), look(fresh), "a copy differs from the original", of=name)
        twin = fn(w)
        ctx.check(twin.simulation.state is twin.state, "copies are no longer connected", how=how)
        twin.state.set_site_state(0, {OCC: "seen"})
        ctx.equal(twin.simulation.state_at((0, 0)) and
                  twin.simulation.state.get_site_state(0)[OCC], "seen",
                  "copies are no longer connected", how=how)
        # attributes that a user has put there, and classes of their own
        for cls in (SimulationState, SimulationResult):
            mine = Mine[cls]()
            mine.note = {"deep": [1]}
            again = fn(mine)
            ctx.equal((type(again), again.note), (type(mine), {"deep": [1]}),
                      "a copy is of another class or lacks an attribute", how=how)
            again.note["deep"].append(2)
            ctx.equal(mine.note, {"deep": [1]}, "a copy shares an attribute", how=how)
        ctx.step(8)
        ctx.state(("held", how))
        ctx.trace()


class MyState(SimulationState):
    pass


class MyResult(SimulationResult):
    def __init__(self, starting_state=None):
        super().__init__(starting_state or SimulationState())


Mine = {SimulationState: MyState, SimulationResult: MyResult}
