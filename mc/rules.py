"""Update rules for driving the runners, and the reference semantics of update application.

A rule is a function (site, get_site, get_general) -> update, which only uses what it can
read through get_site and get_general, so that the same function drives the code under test
(through a controller) and the reference model (through plain dictionaries).
"""

SITES = "SITES"
GENERAL = "GENERAL"
SITE_ID = "_site_id"


# --- reference model: a state is {"SITES": {id: {...}}, "GENERAL": {...}} of plain dicts


def clone(state):
    return {
        SITES: {k: dict(v) for k, v in state[SITES].items()},
        GENERAL: dict(state[GENERAL]),
    }


def add_update(batch, update, site=None):
    """Adds what one application of the rule (at `site`) returned to the updates of a step."""
    if update is None:
        return batch
    if SITES in update or GENERAL in update:
        sites = update.get(SITES, {})
        batch[GENERAL].update(update.get(GENERAL, {}))
    elif update and all(type(k) is int for k in update):
        sites = update
    else:
        sites = {site: update}
    for target, values in sites.items():
        batch[SITES][target] = {**batch[SITES].get(target, {}), **values}
    return batch


def apply_batch(state, batch):
    for site, update in batch.get(SITES, {}).items():
        old = state[SITES].get(site)
        if old is None:
            old = {SITE_ID: site}
        state[SITES][site] = {**old, **update}
    state[GENERAL] = {**state[GENERAL], **batch.get(GENERAL, {})}
    return state


def sync_step(state, rule):
    """The state after one synchronous step."""
    batch = {SITES: {}, GENERAL: {}}
    for site in list(state[SITES]):
        add_update(batch, rule(site, state[SITES].get, lambda: state[GENERAL]), site)
    return apply_batch(clone(state), batch)


def sync_run(state, rule, steps):
    states = [clone(state)]
    for _ in range(steps):
        states.append(sync_step(states[-1], rule))
    return states


# --- rules; `ids` is the list of the sites of the initial state, in a ring


def _ring(ids):
    n = len(ids)
    left = {s: ids[(i - 1) % n] for i, s in enumerate(ids)}
    right = {s: ids[(i + 1) % n] for i, s in enumerate(ids)}
    return left, right


def make_rule(name, ids):
    left, right = _ring(ids)

    def value(get, site):
        state = get(site)
        return state.get("v", 0) if state is not None else 0

    def mix(site, get):
        lt, rt = left.get(site, site), right.get(site, site)
        return (value(get, lt) + 2 * value(get, site) + 3 * value(get, rt) + 1) % 5

    def own(site, get, general):
        return {"v": mix(site, get)}

    def own_new_key(site, get, general):
        return {"v": mix(site, get), f"k{value(get, site)}": value(get, site)}

    def odd_keys(site, get, general):
        # keys of site states can be anything, too
        m = mix(site, get)
        if m == 0:
            return {True: m, 1.5: value(get, site)}
        if m == 1:
            return {False: value(get, right.get(site, site))}
        if m == 2:
            return {"v": m, right.get(site, site): value(get, site)}
        return {7: m, (0, 1): m, None: value(get, site), "v": m}

    def as_sites(site, get, general):
        return {SITES: {site: {"v": mix(site, get)}}}

    def as_ids(site, get, general):
        return {site: {"v": mix(site, get)}}

    def sparse(site, get, general):
        # most sites say nothing in most steps, in the ways there are to say nothing
        m = mix(site, get)
        if m == 0:
            return None
        if m == 1:
            return {}
        if m == 2:
            return {SITES: {}}
        if m == 3:
            return {"v": value(get, left.get(site, site))}
        return {SITES: {site: {"v": 4}}, GENERAL: {}}

    def one(site, get, general):
        # the single site that holds a positive value passes it on; everyone else is silent
        if value(get, left.get(site, site)) > 0 and len(ids) > 1:
            return {"v": value(get, left.get(site, site)), "seen": True}
        if value(get, site) > 0:
            return {"v": 0}
        return None

    def with_general(site, get, general):
        total = general().get("total", 0)
        return {
            SITES: {site: {"v": (mix(site, get) + total) % 5}},
            GENERAL: {"total": (total + 1) % 3, "last": site, f"by{site}": total},
        }

    def only_general(site, get, general):
        g = general()
        return {GENERAL: {"count": g.get("count", 0) + 1, f"v{site}": mix(site, get)}}

    def push(site, get, general):
        # writes to the next site; every site is written by one site
        return {right.get(site, site): {"v": mix(site, get)}}

    def exchange(site, get, general):
        # every site is written by itself and by its neighbors, in different keys
        update = {site: {"v": mix(site, get)}}
        if value(get, site) != 1:
            update = {SITES: update}
        sites = update.get(SITES, update)
        for other, key in ((left.get(site, site), "of_right"), (right.get(site, site), "of_left")):
            sites[other] = {**sites.get(other, {}), key: value(get, site)}
        return update

    def mark_next(site, get, general):
        # one site in two writes to itself only, the others to a key of the next one only
        if value(get, site) % 2:
            return {"v": (value(get, site) + 1) % 4}
        return {right.get(site, site): {"mark": site, "v2": value(get, site)}}

    def all_to_one(site, get, general):
        # every site writes the same key of the same site: the last site decides
        return {ids[0]: {"v": mix(site, get)}} if ids else None

    def grow(site, get, general):
        # new sites come into being during the run
        fresh = site + 100
        if site < 200 and get(fresh) is None and value(get, site) > 1:
            return {SITES: {fresh: {"v": mix(site, get)}, site: {"v": 0}}}
        return {"v": (value(get, site) + 1) % 4}

    def nothing(site, get, general):
        return None

    # dictionaries that the controller uses again, with new values, whenever it is called
    kept = {}
    kept_sites = {s: {} for s in ids}
    kept_full = {SITES: {}, GENERAL: {}}

    def kept_own(site, get, general):
        kept.clear()
        kept["v"] = mix(site, get)
        if value(get, site) % 2:
            kept["odd"] = site
        return kept

    def kept_ids(site, get, general):
        # the dictionary of a site is the same in all steps
        kept_sites.setdefault(site, {})["v"] = mix(site, get)
        return {site: kept_sites[site]}

    def kept_all(site, get, general):
        kept_full[SITES].clear()
        values = kept_sites.setdefault(site, {})
        values["v"] = mix(site, get)
        kept_full[SITES][site] = values
        kept_full[SITES][right.get(site, site)] = kept
        kept["of_left"] = value(get, site)
        kept_full[GENERAL]["last"] = 10 * site + value(get, site)
        return kept_full

    rules = {
        "own": own,
        "own_new_key": own_new_key,
        "odd_keys": odd_keys,
        "as_sites": as_sites,
        "as_ids": as_ids,
        "sparse": sparse,
        "one": one,
        "with_general": with_general,
        "only_general": only_general,
        "push": push,
        "exchange": exchange,
        "mark_next": mark_next,
        "all_to_one": all_to_one,
        "grow": grow,
        "nothing": nothing,
        "kept_own": kept_own,
        "kept_ids": kept_ids,
        "kept_all": kept_all,
    }

    if isinstance(name, (list, tuple)):  # one form for each site
        per_site = dict(zip(ids, name))

        def mixed(site, get, general):
            return rules[per_site.get(site, "own")](site, get, general)

        return mixed
    return rules[name]


RULES = [
    "own",
    "own_new_key",
    "odd_keys",
    "as_sites",
    "as_ids",
    "sparse",
    "one",
    "with_general",
    "only_general",
    "push",
    "exchange",
    "mark_next",
    "all_to_one",
    "grow",
    "nothing",
    "kept_own",
    "kept_ids",
    "kept_all",
]


def start(ids, values, general=None):
    return {
        SITES: {s: {SITE_ID: s, "v": v} for s, v in zip(ids, values)},
        GENERAL: dict(general or {}),
    }
