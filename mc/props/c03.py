"""Asynchronous runs: a first-come first-served queue of sites, one application per step."""

import itertools

from pylattica.core import BasicController
from pylattica.core.runner import AsynchronousRunner

from .. import explore as ex
from ..rules import GENERAL, SITES, add_update, apply_batch, clone, start
from ..sut import SimulationResult, build_state, content, history
from .c02 import quiet

BOUNDS = (
    "every combination of responses of the controller (12 forms of updates, some in dictionaries that the controller uses again, 6 lists of next "
    "sites, 5 answers to the request for a site) over runs of up to 4 steps and 3 sites; "
    "every outcome of the built-in random choice of a site; up to 70000 waiting sites; with and without verbose output; sites that come into being during the run"
)
ASSUMPTIONS = ["the queue may only be observed through the order of the visits"]

FORMS = ["none", "empty", "key", "newkey", "sites", "ids", "general", "full", "kept",
         "kept_sites", "odd", "bool"]

# what a controller uses again for each of its updates
KEPT = {}
KEPT_SITES = {}


def kept(**values):
    KEPT.clear()
    KEPT.update(values)
    return KEPT


def kept_sites(site, **values):
    KEPT_SITES.clear()
    KEPT_SITES[site] = kept(**values)
    return {SITES: KEPT_SITES, GENERAL: KEPT}


def make_update(form, site, k, ids, get):
    """The update of the k-th application; it depends on what the site holds then."""
    v = (get(site) or {}).get("v", 0)
    other = ids[(ids.index(site) + 1) % len(ids)] if site in ids else site
    return {
        "none": lambda: None,
        "empty": lambda: {},
        "key": lambda: {"v": v + 1 + k},
        "newkey": lambda: {f"k{k}": v},
        "odd": lambda: {"v": v + k, other: k, (0, 1): v, None: site},
        "bool": lambda: {True: v + k},
        "sites": lambda: {SITES: {site: {"v": v * 2 + 1}, other: {"u": k}}},
        "ids": lambda: {site: {"v": -v}, other: {"v": k}},
        "general": lambda: {GENERAL: {"g": k, f"g{v}": site}},
        "full": lambda: {SITES: {other: {"v": v + 3}}, GENERAL: {"g": -k}},
        "kept": lambda: kept(v=v + 2 * k),
        "kept_sites": lambda: kept_sites(other, g=k + v, v=k),
    }[form]()


def nexts(ids):
    a, b, c = ids[0], ids[1 % len(ids)], ids[2 % len(ids)]
    return ["alone", [], [c], [a, b], [b, b], [c, a, b]]


def answers(ids):
    return [ids[0], ids[-1], [ids[-1], ids[0]], [], None]


def cases(tier):
    out = []
    for ids in ([0, 1, 2], [4, 9, 1], [7]):
        for steps in (0, 1, 2, 3):
            out.append({"kind": "queue", "ids": ids, "steps": steps, "forms": ["key"]})
        for form in FORMS:
            out.append({"kind": "queue", "ids": ids, "steps": 2, "forms": [form, "key"]})
        out.append({"kind": "queue", "ids": ids, "steps": 4, "forms": ["key"],
                    "fixed": True})
        out.append({"kind": "updates", "ids": ids, "steps": 3 if tier == "quick" else 4})
    for first in range(6):
        out.append({"kind": "long", "ids": [0, 1, 2], "steps": 5, "first": first})
    for sizes in ([1, 5000], [5000, 0], [40, 2500], [300, 900], [3, 70000]):
        out.append({"kind": "many", "sizes": sizes})
    out.append({"kind": "growing"})
    out.append({"kind": "own lists"})
    out.append({"kind": "steady", "ids": list(range(10)), "steps": 60})
    for ids in ([0], [0, 1, 2], [5, 2], [10, 20, 30, 40], [1, 2, 3, 4, 5]):
        out.append({"kind": "random", "ids": ids, "steps": 3 if len(ids) < 5 else 2})
    if tier == "thorough":
        for first in range(6):
            out.append({"kind": "long", "ids": [3, 1, 2], "steps": 6, "first": first})
        for a, b in itertools.product(FORMS, repeat=2):
            out.append({"kind": "queue", "ids": [3, 1, 0], "steps": 3, "forms": [a, b]})
        out.append({"kind": "random", "ids": list(range(6)), "steps": 4})
    return out


class Scripted(BasicController):
    def __init__(self, script):
        self.script = script
        self.log = []  # what was asked, with the state at that time
        self.pre_runs = 0

    def pre_run(self, initial_state):
        self.pre_runs += 1

    def instantiate_result(self, starting_state):
        return SimulationResult(starting_state)

    def get_random_site(self, state):
        self.log.append(("ask", None, content(state)))
        answer = self.script.answer()
        return list(answer) if isinstance(answer, list) else answer

    def get_state_update(self, site_id, prev_state):
        k = sum(1 for e in self.log if e[0] == "visit")
        self.log.append(("visit", site_id, content(prev_state)))
        form, nxt = self.script.response()
        update = make_update(form, site_id, k, self.script.ids, prev_state.get_site_state)
        if nxt == "alone":
            return update
        return update, list(nxt)


class Script:
    """The responses, chosen by the explorer and recorded for the reference."""

    def __init__(self, chooser, case):
        self.chooser = chooser
        self.ids = case["ids"]
        self.case = case
        self.responses = []
        self.answers = []

    def answer(self):
        menu = answers(self.ids)
        if self.case.get("fixed") and self.answers:
            menu = menu[:2]
        if self.case["kind"] in ("updates", "steady"):
            menu = menu[:1]
        if self.case["kind"] == "long":
            menu = menu[:3] if not self.answers else menu[1:2]
        out = menu[self.chooser.choose(len(menu), "answer")]
        self.answers.append(out)
        return out

    def response(self):
        menu = nexts(self.ids)
        forms = self.case.get("forms", FORMS)
        if self.case["kind"] == "updates":
            form = forms[self.chooser.choose(len(forms), "form")]
            nxt = [self.ids[(len(self.responses) + 1) % len(self.ids)]]
        elif self.case["kind"] == "steady":
            i = len(self.responses)
            form, nxt = "key", [self.ids[(3 * i) % 10]] if i % 7 else []
        elif self.case["kind"] == "long":
            form = "key"
            i = len(self.responses)
            nxt = menu[self.case["first"] if i == 0 else self.chooser.choose(len(menu), "n")]
        else:
            form = forms[len(self.responses) % len(forms)]
            nxt = menu[self.chooser.choose(len(menu), "next")]
        self.responses.append((form, nxt))
        return form, nxt


def reference(case, responses, answers_given):
    """-> (log of questions, states, error)"""
    ids = case["ids"]
    state = start(ids, [1 + i for i in range(len(ids))], {"g": 0})
    states = [clone(state)]
    log = []
    queue = []
    answers_given = list(answers_given)
    responses = list(responses)

    def ask():
        log.append(("ask", None, clone(state)))
        # whether one more site is asked for after the last step makes no difference
        a = answers_given.pop(0) if answers_given else None
        if isinstance(a, list):
            queue.extend(a)
        elif a is not None:
            queue.append(a)

    ask()
    if not queue:
        return log, states, True
    for k in range(case["steps"]):
        site = queue.pop(0)
        log.append(("visit", site, clone(state)))
        form, nxt = responses.pop(0)
        update = make_update(form, site, k, ids, state[SITES].get)
        apply_batch(state, add_update({SITES: {}, GENERAL: {}}, update, site))
        states.append(clone(state))
        if nxt != "alone":
            queue.extend(nxt)
        if not queue:
            ask()
        if not queue:
            break
    return log, states, False


def run(case, ctx):
    if case["kind"] == "random":
        return _random(case, ctx)
    if case["kind"] == "growing":
        return _growing(case, ctx)
    if case["kind"] == "own lists":
        return _own_lists(case, ctx)
    if case["kind"] == "many":
        return _many(case, ctx)
    ids = case["ids"]

    def body(chooser):
        script = Script(chooser, case)
        controller = Scripted(script)
        model = start(ids, [1 + i for i in range(len(ids))], {"g": 0})
        initial = build_state(model)
        try:
            if len(case.get("forms", FORMS)) % 2:
                with quiet():
                    result = AsynchronousRunner().run(initial, controller, case["steps"],
                                                      verbose=True)
            else:
                result = AsynchronousRunner().run(initial, controller, case["steps"])
        except RuntimeError as e:
            result = e
        return script, controller, initial, result, model

    def check(res, chooser):
        script, controller, initial, result, model = res
        log, states, error = reference(case, script.responses, script.answers)
        info = {"responses": script.responses, "answers": script.answers}
        if error:
            ctx.check(
                isinstance(result, RuntimeError),
                "a run without a site to start from did not fail",
                **info,
            )
            ctx.count("refused_runs")
        else:
            ctx.check(
                not isinstance(result, RuntimeError),
                f"the run failed: {result}",
                **info,
            )
            ctx.equal(
                [e[1] for e in controller.log if e[0] == "visit"],
                [e[1] for e in log if e[0] == "visit"],
                "wrong order of visits",
                **info,
            )
            asked = controller.log
            while asked and asked[-1][0] == "ask":
                asked = asked[:-1]
            while log and log[-1][0] == "ask":
                log = log[:-1]
            ctx.equal(asked, log, "the controller was given a wrong state", **info)
            ctx.equal(history(result), states, "wrong history", **info)
            ctx.equal(content(result.output), states[-1], "wrong output", **info)
            ctx.equal(content(result.last_step), states[-1], "wrong last step", **info)
        ctx.equal(content(initial), model, "the run changed the state it was given")
        ctx.equal(controller.pre_runs, 1, "the controller was not prepared once")
        for i, s in enumerate(states):
            ctx.state((ids, i, s))
        ctx.step(len(states) - 1)
        ctx.trace()
        ctx.outcome(states[-1])
        ctx.sample(info)

    out = ex.explore(body, check, ctx=ctx)
    ctx.count("runs", out.runs)


class Default(BasicController):
    def __init__(self):
        self.visits = []

    def get_state_update(self, site_id, prev_state):
        self.visits.append(site_id)
        return {"n": len(self.visits)}


def _random(case, ctx):
    """The built-in choice of a site can give every site of the state, each time, and
    nothing else."""
    ids = case["ids"]
    seen = set()

    def body(chooser):
        controller = Default()
        result = AsynchronousRunner().run(
            build_state(start(ids, [0] * len(ids))), controller, case["steps"]
        )
        return controller.visits, history(result)

    def check(res, chooser):
        visits, states = res
        ctx.check(
            all(v in ids for v in visits), "a site was chosen that does not exist",
            visits=visits,
        )
        model = start(ids, [0] * len(ids))
        expected = [clone(model)]
        for k, v in enumerate(visits):
            model[SITES][v] = {**model[SITES][v], "n": k + 1}
            expected.append(clone(model))
        ctx.equal(states, expected, "wrong history", visits=visits)
        seen.add(tuple(visits))
        ctx.state((ids, visits))
        ctx.step(len(visits))
        ctx.trace()
        ctx.outcome(visits)

    ex.explore(body, check, ctx=ctx)
    want = set(itertools.product(ids, repeat=case["steps"]))
    ctx.equal(
        sorted(seen), sorted(want), "not every sequence of sites can be chosen"
    )


class Many(BasicController):
    """Asks for many sites at once, and for many more when it visits the first of them."""

    def __init__(self, first, more):
        self.first, self.more = first, more
        self.visits = []
        self.asked = 0

    def get_random_site(self, state):
        self.asked += 1
        return list(self.first) if self.asked == 1 else [0]

    def get_state_update(self, site_id, prev_state):
        self.visits.append(site_id)
        update = {"n": len(self.visits)}
        return (update, list(self.more)) if len(self.visits) == 1 else update


def _many(case, ctx):
    """However many sites wait, none is lost, and they are served in order."""
    first, more = case["sizes"]
    first = [(7 * i) % 5003 for i in range(first)]
    more = [(11 * i + 1) % 5003 for i in range(more)]
    want = first + more + [0, 0]
    controller = Many(first, more)
    result = AsynchronousRunner().run(
        build_state(start(list(range(5003)), [0] * 5003)), controller, len(want)
    )
    ctx.equal(len(controller.visits), len(want), "wrong number of visits")
    for i, (g, w) in enumerate(zip(controller.visits, want)):
        if g != w:
            ctx.equal(g, w, f"wrong site visited at step {i} of many")
    ctx.equal(len(result), len(want) + 1, "wrong number of steps")
    last = {}
    for i, s in enumerate(want):
        last[s] = i + 1
    got = result.last_step
    for s in range(5003):
        n = got.get_site_state(s).get("n")
        if n != last.get(s):
            ctx.equal(n, last.get(s), f"wrong last value of site {s}")
    ctx.step(len(want))
    ctx.trace()
    ctx.state(case["sizes"])


class Growing(BasicController):
    """Each visit makes a site, which may be asked for right away."""

    def __init__(self, ask):
        self.ask = ask
        self.visits = []

    def get_state_update(self, site_id, prev_state):
        self.visits.append(site_id)
        new = 10 * len(self.visits)
        update = {SITES: {new: {"by": site_id}}, GENERAL: {"n": len(self.visits)}}
        if self.ask[len(self.visits) - 1]:
            return update, [new]
        return update


def _growing(case, ctx):
    """Sites that come into being during a run can be asked for and drawn at once."""
    steps = 3
    for ask in itertools.product((False, True), repeat=steps):
        ctx.at(ask=ask)
        seen = set()

        def body(chooser):
            controller = Growing(ask)
            result = AsynchronousRunner().run(build_state(start([1, 2], [0, 0])), controller,
                                              steps)
            return controller.visits, history(result)

        def check(res, chooser):
            visits, states = res
            model = start([1, 2], [0, 0])
            expected = [clone(model)]
            for k, v in enumerate(visits):
                if k and ask[k - 1]:
                    ctx.equal(v, 10 * k, "a new site that was asked for was not visited",
                              visits=visits)
                else:
                    ctx.check(v in model[SITES], "a site was drawn that does not exist",
                              visits=visits)
                apply_batch(model, {SITES: {10 * (k + 1): {"by": v}}, GENERAL: {"n": k + 1}})
                expected.append(clone(model))
            ctx.equal(states, expected, "wrong history", visits=visits)
            seen.add(tuple(visits))
            ctx.step(steps)
            ctx.trace()
            ctx.state((ask, visits))

        ex.explore(body, check, ctx=ctx)
        want = set()
        for visits in itertools.product((1, 2, 10, 20), repeat=steps):
            ok = True
            for k, v in enumerate(visits):
                sites = [1, 2] + [10 * (j + 1) for j in range(k)]
                ok = ok and (v == 10 * k if k and ask[k - 1] else v in sites)
            if ok:
                want.add(visits)
        ctx.equal(sorted(seen), sorted(want), "not every sequence of sites can come out", ask=ask)


class OwnLists(BasicController):
    """Hands out lists that it keeps."""

    def __init__(self):
        self.first = [2, 0]
        self.more = [[1], [2, 1], []]
        self.visits = []

    def get_random_site(self, state):
        return self.first

    def get_state_update(self, site_id, prev_state):
        self.visits.append(site_id)
        return {"n": len(self.visits)}, self.more[site_id]


def _own_lists(case, ctx):
    """The lists of a controller stay its own: they are not changed, and changing them later
    does not change what was asked for."""
    for steps in range(12):
        ctx.at(steps=steps)
        controller = OwnLists()
        AsynchronousRunner().run(build_state(start([0, 1, 2], [0, 0, 0])), controller, steps)
        queue, want = [2, 0], []
        for _ in range(steps):
            want.append(queue.pop(0))
            queue += [[1], [2, 1], []][want[-1]]
            queue = queue or [2, 0]
        ctx.equal(controller.visits, want, "wrong order of visits")
        ctx.equal((controller.first, controller.more), ([2, 0], [[1], [2, 1], []]),
                  "lists of the controller were changed")
        ctx.step(steps)
        ctx.trace()
        ctx.state(steps)
