"""Access to pylattica through its public interface (imported after mc.env.install)."""

import copy

from pylattica.core import BasicController, SimulationResult, SimulationState

from .rules import GENERAL, SITES, make_rule


def content(state):
    """What a state holds, as a plain dictionary of its own."""
    return {
        SITES: {s: copy.deepcopy(state.get_site_state(s)) for s in state.site_ids()},
        GENERAL: copy.deepcopy(state.get_general_state()),
    }


def build_state(model):
    return SimulationState(copy.deepcopy(model))


class RuleController(BasicController):
    """Applies a rule of mc.rules, and keeps a record of how it was called."""

    def __init__(self, rule, ids, rule_fn=None):
        self.rule = rule_fn or make_rule(rule, ids)
        self.visits = []
        self.pre_runs = []

    def pre_run(self, initial_state):
        self.pre_runs.append((len(self.visits), content(initial_state)))

    def get_state_update(self, site_id, prev_state):
        self.visits.append(site_id)
        return self.rule(
            site_id, prev_state.get_site_state, prev_state.get_general_state
        )


def history(result):
    return [content(result.get_step(i)) for i in range(len(result))]


__all__ = [
    "content",
    "build_state",
    "RuleController",
    "history",
    "SimulationResult",
    "SimulationState",
]
