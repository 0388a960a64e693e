"""Analyzers report what the states and results they are given hold."""

import itertools

import matplotlib.pyplot as plt
import numpy as np

from pylattica.core import (
    Lattice,
    PeriodicStructure,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
)
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

from ..sut import history

BOUNDS = (
    "all assignments of 2 classes and 3 kinds of site states to up to 4 sites, with all "
    "combinations of up to 2 of 9 criteria and all pairs of 7 searches; all states of up to "
    "5 sites over 3 phases; up to 1200 sites and 13 criteria; all histories of up to 3 steps (4 in the thorough tier) of 12 "
    "updates over 3 sites; histories of 99-260 steps for plots"
)
ASSUMPTIONS = [
    "every site of the structure has a state",
    "ratios are taken of phases that are there",
    "no phase is exactly as prevalent as the minimum to be plotted",
]

VALUES = [{"a": 1}, {"a": 2, "b": "x"}, {"b": "y", OCC: "A"}]
CRITERIA = [
    lambda s: s.get("a") == 1,
    lambda s: "b" in s,
    lambda s: s["_site_id"] % 2 == 0,
    lambda s: True,
    lambda s: False,
    # true and false in other words
    lambda s: s.get("b"),
    lambda s: np.bool_(s.get("a", 1) == 1),
    lambda s: s["_site_id"] % 3,
    lambda s: [x for x in s if x == "a"],
]
SEARCHES = [{}, {"a": 1}, {"a": 2}, {"b": "x"}, {"a": 2, "b": "x"}, {"a": 1, "b": "x"},
            {"b": "y", OCC: "A"}, {"c": 0}]


def cases(tier):
    out = []
    for n in range(0, 5):
        for classes in itertools.product("XY", repeat=n):
            out.append({"kind": "sites", "classes": "".join(classes)})
        out.append({"kind": "plain", "n": n})
    for n in range(1, 6):
        out.append({"kind": "phases", "n": n})
    for n in (3, 30, 300, 1200):
        out.append({"kind": "lots", "n": n})
    for first in range(len(UPDATES)):
        out.append({"kind": "history", "first": first,
                    "depth": 3 if tier == "quick" else 4})
    for length in (1, 2, 99, 100, 101, 149, 150, 151, 199, 200, 249, 250, 260):
        out.append({"kind": "plot", "length": length})
    return out


def run(case, ctx):
    {"sites": _sites, "plain": _plain, "phases": _phases, "history": _history,
     "plot": _plot, "lots": _lots}[case["kind"]](case, ctx)


def ask(ctx, analyzer, state, model, classes):
    """model: site -> its state; classes: site -> its class, if there is a structure"""
    kinds = [None] if classes is None else [None, "Z", *sorted({"X", "Y", *classes.values()}, key=repr)]
    for kind in kinds:
        of_kind = [s for s in model if kind is None or classes[s] == kind]
        for n in range(3):
            for chosen in itertools.product(range(len(CRITERIA)), repeat=n):
                criteria = [CRITERIA[i] for i in chosen]
                want = sorted(s for s in of_kind if all(c(model[s]) for c in criteria))
                kwargs = {}
                if kind is not None:
                    kwargs["site_class"] = kind
                if n or kind is None:
                    kwargs["state_criteria"] = criteria
                ctx.at(kind=kind, criteria=chosen)
                ctx.equal(sorted(analyzer.get_sites(state, **kwargs)), want, "wrong sites")
                ctx.equal(analyzer.get_site_count(state, **kwargs), len(want),
                          "wrong number of sites")
        for search in SEARCHES:
            ctx.at(kind=kind, search=search)
            want = sorted(s for s in of_kind
                          if all(model[s].get(k) == v for k, v in search.items()))
            kwargs = {} if kind is None else {"site_class": kind}
            ctx.equal(sorted(analyzer.get_sites_where_equal(state, dict(search), **kwargs)),
                      want, "wrong sites where equal")
            ctx.equal(analyzer.get_site_count_where_equal(state, dict(search), **kwargs),
                      len(want), "wrong number of sites where equal")
        ctx.step(len(SEARCHES) + 91)
    ctx.trace()


def state_of(model):
    state = SimulationState()
    for s, v in model.items():
        state.set_site_state(s, v)
    return state


def _sites(case, ctx):
    # any value can be a class
    names = {"X": "X", "Y": "Y"} if len(case["classes"]) % 2 else {"X": 0, "Y": ""}
    classes = tuple(names[c] for c in case["classes"])
    struct = PeriodicStructure(Lattice([(1, 0), (0, 1)]))
    for i, c in enumerate(classes):
        struct.add_site(c, (i / 7, 0.5))
    for values in itertools.product(VALUES, repeat=len(classes)):
        model = {i: {"_site_id": i, **v} for i, v in enumerate(values)}
        ask(ctx, StateAnalyzer(struct), state_of(model), model, dict(enumerate(classes)))
        ctx.state((classes, values))
    # states that are stored in another order
    model = {i: {"_site_id": i, **VALUES[i % 3]} for i in reversed(range(len(classes)))}
    ask(ctx, DiscreteStepAnalyzer(struct), state_of(model), model, dict(enumerate(classes)))


def _plain(case, ctx):
    for ids in ([0, 1, 2, 3], [9, 4, 0, 7]):
        for values in itertools.product(VALUES, repeat=case["n"]):
            model = {i: {"_site_id": i, **v} for i, v in zip(ids, values)}
            for analyzer in (StateAnalyzer(), DiscreteStepAnalyzer()):
                ask(ctx, analyzer, state_of(model), model, None)
            ctx.state((ids, values))


def _phases(case, ctx):
    n = case["n"]
    analyzer = DiscreteStepAnalyzer()
    for phases in itertools.product("ABC", repeat=n):
        state = state_of({3 * i: {OCC: p} for i, p in enumerate(phases)})
        ctx.at(phases=phases)
        step(ctx, analyzer, state, phases)
        ctx.state(phases)
        ctx.trace()


def _lots(case, ctx):
    """Many sites, many criteria, and criteria in other collections."""
    n = case["n"]
    struct = PeriodicStructure(Lattice([(n, 0), (0, 1)]))
    for i in range(n):
        struct.add_site("XY"[i % 3 == 1], (i + 0.5, 0.5))
    model = {i: {"_site_id": i, OCC: f"p{i % 70}", **{k: i % 5 for k in "abcdefghijklmnop"}}
             for i in range(n)}
    state = state_of(model)
    for analyzer in (DiscreteStepAnalyzer(struct), DiscreteStepAnalyzer()):
        for size in range(1, 14):
            # all but one of the criteria are true
            for odd in range(size):
                criteria = [lambda s: True] * size
                criteria[odd] = lambda s: s["a"] == 3
                for made in (criteria, tuple(criteria)):
                    ctx.at(criteria=size, odd=odd)
                    want = [i for i in model if i % 5 == 3]
                    ctx.equal(sorted(analyzer.get_sites(state, state_criteria=made)), want,
                              "wrong sites")
                    ctx.equal(analyzer.get_site_count(state, state_criteria=made), len(want),
                              "wrong number of sites")
                search = {k: 3 for k in "abcdefghijklmnop"[:size]}
                search["abcdefghijklmnop"[odd]] = 2
                want = [i for i in model if i % 5 == 2] if size == 1 else []
                ctx.equal(analyzer.get_sites_where_equal(state, search), want,
                          "wrong sites where equal")
                search["abcdefghijklmnop"[odd]] = 3
                ctx.equal(sorted(analyzer.get_sites_where_equal(state, search)),
                          [i for i in model if i % 5 == 3], "wrong sites where equal")
                ctx.step(4)
        for value in (0, 0.0, False):
            # zero is a value as well
            ctx.equal(sorted(analyzer.get_sites_where_equal(state, {"a": value})),
                      [i for i in model if i % 5 == 0], "wrong sites where equal")
        step(ctx, analyzer, state, [v[OCC] for v in model.values()])
        for p in {f"p{i % 70}" for i in range(n)}:
            count = sum(v[OCC] == p for v in model.values())
            ctx.equal(analyzer.cell_count(state, p), count, "wrong number of cells", phase=p)
            ctx.check(abs(analyzer.cell_fraction(state, p) - count / n) < 1e-12,
                      "wrong fraction of cells", phase=p)
        ctx.state((n, analyzer is None))
        ctx.trace()


def step(ctx, analyzer, state, phases):
    count = {p: phases.count(p) for p in "ABCZ"}
    for p in "ABCZ":
        ctx.equal(analyzer.cell_count(state, p), count[p], "wrong number of cells", phase=p)
        ctx.check(abs(analyzer.cell_fraction(state, p) - count[p] / len(phases)) < 1e-12,
                  "wrong fraction of cells", phase=p)
        for q in "ABC":
            if count[q]:
                ctx.check(
                    abs(analyzer.cell_ratio(state, p, q) - count[p] / count[q]) < 1e-12,
                    "wrong ratio", phases=(p, q))
    ctx.equal(sorted(analyzer.phases_present(state)), sorted(set(phases)), "wrong phases")
    ctx.equal(analyzer.phase_count(state), len(set(phases)), "wrong number of phases")
    ctx.step(10)


def occ(**kw):
    return {int(k[1:]): {OCC: v} for k, v in kw.items()}


UPDATES = [
    {}, occ(s0="A"), occ(s0="B"), occ(s1="C"), occ(s2="B"), occ(s0="D", s2="D"),
    {"SITES": occ(s1="A", s2="C"), "GENERAL": {}}, {"GENERAL": {"g": 1}},
    {"SITES": occ(s0="C")}, {3: {OCC: "E"}}, occ(s0="B", s1="B", s2="B"),
    {"SITES": {}, "GENERAL": {}},
]


def build(start, steps):
    """-> the result, and the phases of the sites at each step"""
    now = {i: p for i, p in enumerate(start)}
    result = SimulationResult(state_of({i: {OCC: p} for i, p in now.items()}))
    out = [list(now.values())]
    for u in steps:
        result.add_step(u)
        sites = u.get("SITES", {} if "GENERAL" in u else u)
        for s, v in sites.items():
            now[s] = v[OCC]
        out.append(list(now.values()))
    return result, out


def _history(case, ctx):
    for n in range(case["depth"]):
        for rest in itertools.product(range(len(UPDATES)), repeat=n):
            chosen = (case["first"],) + rest
            ctx.at(steps=chosen)
            if n < 2:
                growing(ctx, [UPDATES[i] for i in chosen])
            result, phases = build("AAB", [UPDATES[i] for i in chosen])
            before = history(result) if n < 2 else None
            analyzer = DiscreteResultAnalyzer(result)
            if n % 2:
                result.load_steps(2)
            everything = {p for step in phases for p in step}
            whole(ctx, analyzer, phases)
            for i, now in enumerate(phases):
                for p in sorted(everything) + ["none"]:
                    got = analyzer.phase_fraction_at(i, p)
                    ctx.check(abs(got - now.count(p) / len(now)) < 1e-12,
                              "wrong fraction at a step", step=i, phase=p, got=got)
            if n < 2:
                plotted(ctx, analyzer, phases, 0.01)
                plotted(ctx, analyzer, phases, 0.4)
                counts(ctx, analyzer, phases)
                ctx.equal(history(result), before, "analyzing changed the result")
            ctx.state(phases)
            ctx.step(len(phases))
            ctx.trace()


def whole(ctx, analyzer, phases):
    everything = {p for step in phases for p in step}
    ctx.equal(sorted(analyzer.all_phases()), sorted(everything), "wrong phases")
    final = analyzer.final_phase_fractions()
    ctx.equal(sorted(final), sorted(everything), "wrong phases at the end")
    for p in everything:
        ctx.check(abs(final[p] - phases[-1].count(p) / len(phases[-1])) < 1e-12,
                  "wrong fraction at the end", phase=p, got=final[p])


def growing(ctx, updates):
    """One analyzer of a result that gets more and more steps."""
    result, _ = build("AAB", [])
    analyzer = DiscreteResultAnalyzer(result)
    for n in range(len(updates) + 1):
        if n:
            result.add_step(updates[n - 1])
        phases = build("AAB", updates[:n])[1]
        whole(ctx, analyzer, phases)
        plotted(ctx, analyzer, phases, 0.01)
        counts(ctx, analyzer, phases)
        for p in "ABCDE":
            got = analyzer.phase_fraction_at(n, p)
            ctx.check(abs(got - phases[n].count(p) / len(phases[n])) < 1e-12,
                      "wrong fraction at a step", step=n, phase=p, got=got)
    ctx.trace()


def plotted(ctx, analyzer, phases, least):
    fig = analyzer.plot_phase_fractions(**({} if least == 0.01 else
                                           {"min_prevalence": least}))
    everything = {p for step in phases for p in step}
    fraction = {p: [now.count(p) / len(now) for now in phases] for p in everything}
    names = [t.name for t in fig.data]
    ctx.equal(len(names), len(set(names)), "a phase is plotted twice")
    xs = list(range(len(phases)))
    for t in fig.data:
        xs = [int(x) for x in t.x]
        ctx.check(xs[0] == 0 and xs == sorted(set(xs)) and xs[-1] < len(phases),
                  "wrong steps are plotted", steps=xs[:5])
        gaps = {b - a for a, b in zip(xs, xs[1:])}
        ctx.check(len(gaps) <= 1 and xs[-1] + max(gaps, default=1) > len(phases) - 1,
                  "the steps that are plotted do not cover the result", last=xs[-1])
        if len(phases) <= 100:
            ctx.equal(xs, list(range(len(phases))), "steps are not plotted")
        ctx.check(t.name in everything, "a phase which is not there is plotted", name=t.name)
        ctx.check(
            len(t.y) == len(xs)
            and all(abs(y - fraction[t.name][x]) < 1e-12 for x, y in zip(xs, t.y)),
            "wrong fractions are plotted", phase=t.name)
    for p in everything:
        if max(fraction[p][x] for x in xs) > least + 1e-9:
            ctx.check(p in names, "a prevalent phase is not plotted", phase=p)
        if max(fraction[p]) < least - 1e-9:
            ctx.check(p not in names, "a phase that is not prevalent is plotted", phase=p)
    ctx.step()


def counts(ctx, analyzer, phases):
    plt.close("all")
    analyzer.plot_phase_counts()
    lines = plt.gca().lines
    ctx.equal(len(lines), 1, "not one line is plotted")
    ctx.equal([int(x) for x in lines[0].get_xdata()], list(range(len(phases))), "wrong steps")
    ctx.equal([int(y) for y in lines[0].get_ydata()], [len(set(now)) for now in phases],
              "wrong numbers of phases are plotted")
    plt.close("all")
    ctx.step()


def _plot(case, ctx):
    length = case["length"]
    steps = []
    for i in range(length - 1):
        # "L" only ever occurs at the last step, "M" midway
        # and others at one step each
        who = "L" if i == length - 2 else "M" if i == length // 2 else f"R{i}" if i % 9 == 4 else "ABC"[(i * i) % 3]
        steps.append({i % 3: {OCC: who}} if i % 2 else
                     {"SITES": {i % 3: {OCC: who}}, "GENERAL": {}})
    result, phases = build("AAB", steps)
    for least in (0.01, 0.4, 0.7):
        # with and without steps that are stored, and again
        analyzer = DiscreteResultAnalyzer(result)
        plotted(ctx, analyzer, phases, least)
        plotted(ctx, analyzer, phases, least)
        ctx.state((length, least))
        ctx.trace()
    for loaded in (False, True):
        result, _ = build("AAB", steps)
        if loaded:
            result.load_steps(3)
        whole(ctx, DiscreteResultAnalyzer(result), phases)
    counts(ctx, DiscreteResultAnalyzer(result), phases)
    for i in {0, length // 2, length - 1}:
        got = DiscreteResultAnalyzer(result).phase_fraction_at(i, "A")
        ctx.check(abs(got - phases[i].count("A") / 3) < 1e-12, "wrong fraction at a step")
