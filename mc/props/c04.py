"""The state store behaves like a dictionary of dictionaries, and copies are independent."""

import copy
import itertools
import json

from pylattica.core import Lattice, PeriodicStructure, SimulationState

from ..rules import GENERAL, SITE_ID, SITES, apply_batch, clone
from ..sut import content

BOUNDS = (
    "all sequences of up to 3 operations from an alphabet of 33, up to 5 from one of 8, "
    "from 4 starting states, with every query after every operation; up to 1500 "
    "sites and 1200 operations in fixed orders"
)
ASSUMPTIONS = ["states have both a site part and a general part"]

STARTS = {
    "empty": {SITES: {}, GENERAL: {}},
    "one": {SITES: {0: {SITE_ID: 0, "a": 1}}, GENERAL: {"g": 0}},
    "nested": {
        SITES: {3: {SITE_ID: 3, "a": [1, {"x": 2}]}, 0: {SITE_ID: 0}},
        GENERAL: {"g": {"deep": [1]}},
    },
    "struct": None,
}

SMALL = [
    ["set", 0, {"a": 1}],
    ["set", 7, {"b": 2}],
    ["set", 0, {}],
    ["general", {"g": 5}],
    ["batch", {SITES: {0: {"b": 3}}, GENERAL: {"h": 1}}],
    ["batch", {7: {"a": 4}}],
    ["copy"],
    ["copy_keep_original"],
]

BIG = [
    ["set", 0, {"a": 1}],
    ["set", 0, {"a": None, "b": 0}],
    ["set", 3, {}],
    ["set", 3, {"a": [5]}],
    ["set", 12, {"a": False}],
    ["set", 3, {"a": {"x": 1}}],
    ["batch", {3: {"a": {"y": [2]}}}],
    ["set", 12, {SITE_ID: 12, "c": "x"}],
    ["set_mutate", 0, {"m": 1}],
    ["general", {}],
    ["general", {"g": 1}],
    ["general", {"h": {"y": 1}, "g": None}],
    ["general_mutate", {"m": 1}],
    ["batch", {}],
    ["batch", {0: {"a": 8}}],
    ["batch", {0: {"z": 8}, 20: {"a": 9}}],
    ["batch", {SITES: {}}],
    ["batch", {SITES: {3: {"a": 8}}}],
    ["batch", {SITES: {3: {"b": 8}, 21: {}}}],
    ["batch", {GENERAL: {}}],
    ["batch", {GENERAL: {"g": 10}}],
    ["general", {"g": {"z": 1}}],
    ["batch", {SITES: {0: {"a": 11}}, GENERAL: {"k": 11}}],
    ["batch", {SITES: {}, GENERAL: {"k": None}}],
    ["batch", {GENERAL: {"k": 1}, SITES: {5: {"q": 1}}}],
    ["batch_twice", {SITES: {0: {"a": 12}}, GENERAL: {"k": 12}}],
    ["copy"],
    ["copy_keep_original"],
    ["rebuild"],
    ["dict"],
    ["json"],
]


def cases(tier):
    out = []
    for name in STARTS:
        for i in range(len(BIG)):
            out.append({"start": name, "alphabet": "big", "first": [i], "depth": 2})
        for i in range(len(SMALL)):
            out.append({"start": name, "alphabet": "small", "first": [i], "depth": 4})
    out.append({"kind": "equality"})
    out.append({"kind": "many"})
    if tier == "thorough":
        for name in STARTS:
            for i, j in itertools.product(range(len(BIG)), repeat=2):
                out.append({"start": name, "alphabet": "big", "first": [i, j], "depth": 2})
            for i, j in itertools.product(range(len(SMALL)), repeat=2):
                out.append(
                    {"start": name, "alphabet": "small", "first": [i, j], "depth": 4}
                )
    return out


def begin(name):
    if name == "struct":
        struct = PeriodicStructure(Lattice([(3, 0), (0, 1)]))
        for x in range(3):
            struct.add_site("A", (x, 0))
        return SimulationState.from_struct(struct), {
            SITES: {i: {SITE_ID: i} for i in range(3)},
            GENERAL: {},
        }
    model = copy.deepcopy(STARTS[name])
    if name == "empty":
        return SimulationState(), model
    source = copy.deepcopy(model)
    state = SimulationState(source)
    # what the state was made from stays the caller's
    for v in source[SITES].values():
        v["a"] = "changed"
        v["new"] = 1
    source[SITES][99] = {}
    source[GENERAL]["g"] = "changed"
    return state, model


def look(ctx, state, model, ops):
    got = content(state)
    ctx.equal(got, model, "the state differs from the model", operations=ops)
    ctx.equal(sorted(state.site_ids()), sorted(model[SITES]), "wrong site ids",
              operations=ops)
    ctx.equal(state.size, len(model[SITES]), "wrong size", operations=ops)
    want = [model[SITES][s] for s in state.site_ids()]
    ctx.equal(state.all_site_states(), want, "wrong site states", operations=ops)
    for s in (1, 55):
        if s not in model[SITES]:
            ctx.equal(state.get_site_state(s), None, "a state for a site without one",
                      operations=ops)
    ctx.check(state == SimulationState(model), "not equal to an equal state",
              operations=ops)


def perform(ctx, state, model, op, kept):
    """-> (state, model) after op; kept collects (state, model) that must not change."""
    kind, args = op[0], copy.deepcopy(op[1:])
    model = copy.deepcopy(model)
    if kind == "set":
        state.set_site_state(args[0], args[1])
        apply_batch(model, {SITES: {args[0]: copy.deepcopy(op[2])}})
    elif kind == "set_mutate":
        update = args[1]
        state.set_site_state(args[0], update)
        update["m"] = "changed"
        update["n"] = "new"
        apply_batch(model, {SITES: {args[0]: op[2]}})
    elif kind == "general":
        state.set_general_state(args[0])
        apply_batch(model, {GENERAL: copy.deepcopy(op[1])})
    elif kind == "general_mutate":
        update = args[0]
        state.set_general_state(update)
        update["m"] = "changed"
        apply_batch(model, {GENERAL: op[1]})
    elif kind in ("batch", "batch_twice"):
        for _ in range(2 if kind == "batch_twice" else 1):
            state.batch_update(args[0])
            ctx.equal(args[0], op[1], "a batch of updates was changed by applying it")
        batch = copy.deepcopy(op[1])
        if SITES not in batch and GENERAL not in batch:
            batch = {SITES: batch}
        apply_batch(model, batch)
    elif kind == "copy":
        kept.append((state, model))
        state = state.copy()
    elif kind == "copy_keep_original":
        kept.append((state.copy(), model))
    elif kind == "rebuild":
        kept.append((state, model))
        state = SimulationState(content(state))
    elif kind == "dict":
        state = SimulationState.from_dict(copy.deepcopy(state.as_dict()))
    elif kind == "json":
        state = SimulationState.from_dict(json.loads(json.dumps(state.as_dict())))
    return state, model


def run(case, ctx):
    if case.get("kind") == "equality":
        return _equality(ctx)
    if case.get("kind") == "many":
        return _many(ctx)
    alphabet = BIG if case["alphabet"] == "big" else SMALL
    first = [alphabet[i] for i in case["first"]]
    for n in range(case["depth"] + 1):
        for rest in itertools.product(alphabet, repeat=n):
            ops = first + list(rest)
            ctx.at(operations=ops)
            state, model = begin(case["start"])
            kept = []
            # intermediate states were looked at in shorter sequences; here, only after
            # the last operation, so that looking cannot hide anything
            for op in ops:
                state, model = perform(ctx, state, model, op, kept)
                ctx.step()
            look(ctx, state, model, ops)
            # a deep change of the latest state must not reach copies or originals
            _scribble(state)
            for other, expected in kept:
                if other is not state:
                    ctx.equal(content(other), expected, "a copy changed with its original",
                              operations=ops)
            ctx.state(model)
            ctx.trace()
            ctx.outcome(model)
    ctx.sample(ops)


def _scribble(state):
    for s in state.site_ids():
        inner = state.get_site_state(s)
        for v in inner.values():
            if isinstance(v, list):
                v.append("scribble")
        state.set_site_state(s, {"scribble": 1})
    g = state.get_general_state()
    for v in g.values():
        if isinstance(v, dict):
            v["scribble"] = 1
    state.set_general_state({"scribble": 1})
    state.set_site_state(1000, {})


def _equality(ctx):
    """States are equal exactly when their contents are."""
    models = []
    for sites in (
        {},
        {0: {SITE_ID: 0}},
        {1: {SITE_ID: 1}},
        {0: {SITE_ID: 0, "a": 1}},
        {0: {SITE_ID: 0, "a": 2}},
        {0: {SITE_ID: 0, "b": 1}},
        {0: {SITE_ID: 0, "a": 1}, 1: {SITE_ID: 1, "a": 1}},
        {1: {SITE_ID: 1, "a": 1}, 0: {SITE_ID: 0, "a": 1}},
        {0: {SITE_ID: 0, "a": None}},
    ):
        for general in ({}, {"g": 1}, {"g": 2}, {"h": 1}):
            models.append({SITES: sites, GENERAL: general})
    for a in models:
        for b in models:
            same = SimulationState(a) == SimulationState(b)
            ctx.equal(bool(same), a == b, "wrong equality", first=a, second=b)
            ctx.step()
            ctx.trace()
            ctx.state((a, b))
            ctx.outcome(same)


def _many(ctx):
    """Many sites, in various orders of ids."""
    for ids in (range(200), range(199, -1, -1), range(0, 3000, 7), [5, 1, 4, 1000000, 3],
                range(1500, 0, -1), range(10**12, 10**12 + 300), range(-150, 150)):
        state, model = SimulationState(), {SITES: {}, GENERAL: {}}
        for n, s in enumerate(ids):
            state.set_site_state(s, {"n": n})
            apply_batch(model, {SITES: {s: {"n": n}}})
            ctx.step()
        look(ctx, state, model, ["many", list(ids)[:3]])
        batch = {s: {"m": s} for s in ids}
        state.batch_update({SITES: copy.deepcopy(batch), GENERAL: {"t": 1}})
        apply_batch(model, {SITES: batch, GENERAL: {"t": 1}})
        look(ctx, state, model, ["many", list(ids)[:3]])
        other = state.copy()
        _scribble(other)
        look(ctx, state, model, ["many", list(ids)[:3]])
        ctx.trace()
        ctx.state(clone(model))
    # a long history, with many copies and many keys
    state, model = SimulationState(), {SITES: {}, GENERAL: {}}
    kept = []
    for n in range(1200):
        batch = {SITES: {n * 7 % 40: {f"k{n % 130}": n}, n * 11 % 45: {"v": [n]}}}
        if n % 3 == 0:
            batch[GENERAL] = {f"g{n % 70}": n}
        if n % 5 == 0:
            state.set_site_state(n % 50, {"s": n})
            apply_batch(model, {SITES: {n % 50: {"s": n}}})
        state.batch_update(copy.deepcopy(batch))
        apply_batch(model, batch)
        if n % 40 == 0:
            kept.append((state, copy.deepcopy(model)))
            state = state.copy()
            look(ctx, state, model, ["long", n])
        ctx.step()
    for n, (other, expected) in enumerate(kept):
        look(ctx, other, expected, ["kept", n])
    ctx.trace()
