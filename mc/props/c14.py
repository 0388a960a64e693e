"""Stochastic and site class neighborhoods give the neighbors one of their builders gives."""

import itertools

from pylattica.core import (
    DistanceNeighborhoodBuilder,
    Lattice,
    MotifNeighborhoodBuilder,
    PeriodicStructure,
    StochasticNeighborhood,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import SiteClassNeighborhood
from pylattica.structures.square_grid import (
    MooreNbHoodBuilder,
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D,
    PseudoPentagonalNeighborhoodBuilder,
    VonNeumannNbHood2DBuilder,
)

from .. import explore as ex
from .. import geo
from .c13 import expected

BOUNDS = (
    "all outcomes of the random choices of two requests in a row, for every site of grids "
    "of 1-5 by 1-5 cells (1-3 in 3 dimensions) with every choice of periodic axes and the "
    "pseudohexagonal and pseudopentagonal neighborhoods; all combinations of 6 "
    "builders; all assignments of 6 builders (or none) to 3 site classes, with 4 sets of names; "
    "3 larger grids (up to 9x10 and 4x5x6), with up to 4 requests in a row"
)
ASSUMPTIONS = [
    "random draws are made with the random module or numpy.random",
]


def cases(tier):
    out = []
    top = 5 if tier == "quick" else 7
    for kind in ("hexagonal", "pentagonal"):
        for periodic in geo.patterns(2):
            for n in range(1, top + 1):
                out.append({"kind": kind, "dim": 2, "periodic": periodic, "rows": n,
                            "top": top})
    for periodic in geo.patterns(3):
        for n in range(1, 4 if tier == "quick" else 5):
            out.append({"kind": "hexagonal", "dim": 3, "periodic": periodic, "rows": n,
                        "top": 3})
    # larger grids, and more requests in a row
    for kind, cells in (("hexagonal", (9, 10)), ("pentagonal", (11, 8)), ("hexagonal", (4, 5, 6))):
        for periodic in ((True,) * len(cells), (False,) * len(cells)):
            out.append({"kind": kind, "dim": len(cells), "periodic": periodic, "cells": cells})
    for n in range(1, 7):
        out.append({"kind": "combinations", "n": n})
    for first in range(7):
        out.append({"kind": "classes", "first": first})
    return out


def _steps(dim):
    return [tuple(s * (i == j) for j in range(dim)) for i in range(dim) for s in (1, -1)]


def alternatives(kind, dim):
    """The offsets of the sets of neighbors there are to choose from."""
    if kind == "hexagonal":
        out = []
        for d in itertools.product((1, -1), repeat=dim):
            if d[0] == 1:  # a diagonal, and the opposite one
                out.append(_steps(dim) + [d, tuple(-x for x in d)])
        return out
    around = [v for v in itertools.product((-1, 0, 1), repeat=2) if any(v)]
    # the half of the eight cells around on one side
    return [
        [v for v in around if v[0] * d[0] + v[1] * d[1] >= 0] for d in _steps(2)
    ]


def run(case, ctx):
    if case["kind"] == "combinations":
        return _combinations(case, ctx)
    if case["kind"] == "classes":
        return _classes(case, ctx)
    dim, periodic = case["dim"], tuple(case["periodic"])
    make = {
        ("hexagonal", 2): PseudoHexagonalNeighborhoodBuilder2D,
        ("hexagonal", 3): PseudoHexagonalNeighborhoodBuilder3D,
        ("pentagonal", 2): PseudoPentagonalNeighborhoodBuilder,
    }[case["kind"], dim]
    unit = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    sets = alternatives(case["kind"], dim)
    grids = [tuple(case.get("cells", ()))]
    if "rows" in case:
        grids = [(case["rows"],) + rest
                 for rest in itertools.product(range(1, case["top"] + 1), repeat=dim - 1)]
    for cells in grids:
        struct = PeriodicStructure.build_from(
            Lattice(unit, periodic), list(cells), {"A": [(0,) * dim]}
        )
        nb = make().get(struct)
        vecs = geo.scaled(unit, cells)
        for site in struct.site_ids:
            options = [expected(struct, vecs, periodic, offsets, site) for offsets in sets]
            ctx.at(cells=cells, site=site, location=struct.site_location(site))
            requests(ctx, nb, site, options)
            if "cells" in case and site % 17 == 0:
                requests(ctx, nb, site, options, 4)
            ctx.state((case["kind"], dim, periodic, cells, site))
        if all(periodic) and min(cells) >= 3:
            ctx.check(all(len(o) == {("hexagonal", 2): 6, ("hexagonal", 3): 8}.get(
                (case["kind"], dim), 5) for o in options), "wrong number of neighbors")
    ctx.sample({"cells": cells, "alternatives": [sorted(o) for o in options]})


def requests(ctx, nb, site, options, rounds=2):
    """Asks for the neighbors of a site under every outcome of the random choices.  Each of
    the options has to be possible at each request, whatever the others gave."""
    want = {tuple(sorted(o)) for o in options}
    seen = set()

    def ask(chooser):
        out = []
        for k in range(rounds):
            if k % 2 == 0:
                out.append((nb.neighbors_of(site), None))
            else:
                weighted = nb.neighbors_of(site, include_weights=True)
                out.append(([s for s, _ in weighted], weighted))
        return out

    def check(result, chooser):
        for got, weighted in result:
            key = tuple(sorted(got))
            ctx.check(key in want, "neighbors that none of the builders gives", site=site,
                      got=key, possible=sorted(want))
            if weighted is not None:
                fits = any(
                    tuple(sorted(o)) == key
                    and all(any(abs(w - d) <= 0.006 for d in o[s]) for s, w in weighted)
                    for o in options
                )
                ctx.check(fits, "wrong weights", site=site, got=weighted)
        seen.add(tuple(tuple(sorted(got)) for got, _ in result))
        ctx.trace()
        ctx.step(len(result))

    ex.explore(ask, check, ctx=ctx)
    all_of_them = set(itertools.product(want, repeat=rounds))
    ctx.check(seen == all_of_them, "some of the alternatives are never given", site=site,
              missing=sorted(all_of_them - seen)[:4])
    ctx.outcome(tuple(sorted(want)))


# a class of sites can be anything
NAMES = [("a", "b", "c"), (0, "0", ""), ("1", 1, (1,)), (2.5, False, "False")]


def _structure(a="a", b="b", c="c"):
    """Two classes of sites on a grid, and one between them."""
    return PeriodicStructure.build_from(
        Lattice([(1, 0), (0, 1)]), [3, 4],
        {a: [(0, 0)], b: [(0.5, 0)], c: [(0.25, 0.5)]},
    )


BUILDERS = [
    MooreNbHoodBuilder,
    VonNeumannNbHood2DBuilder,
    lambda: DistanceNeighborhoodBuilder(0.7),
    lambda: AnnularNeighborhoodBuilder(0.52, 1.06),
    lambda: MotifNeighborhoodBuilder([(0.5, 0)]),
    lambda: MotifNeighborhoodBuilder([(0.3, 0)]),
]


def _sets(struct):
    """For each of the builders, for each site, its neighbors (with their distances)."""
    vecs = geo.scaled([(1, 0), (0, 1)], (3, 4))
    loc = {s: struct.site_location(s) for s in struct.site_ids}
    around = [v for v in itertools.product((-1, 0, 1), repeat=2) if any(v)]
    motifs = [around, _steps(2), None, None, [(0.5, 0)], [(0.3, 0)]]
    out = []
    for i, m in enumerate(motifs):
        one = {}
        for s in loc:
            if m is not None:
                one[s] = expected(struct, vecs, (True, True), m, s)
            else:
                lo, hi = ((-1, 0.7), (0.52, 1.06))[i - 2]
                ds = {t: geo.distance(loc[s], loc[t], vecs, (True, True)) for t in loc}
                one[s] = {t: [d] for t, d in ds.items() if t != s and lo < d < hi}
        out.append(one)
    return out


def _combinations(case, ctx):
    a = NAMES[case["n"] % len(NAMES)][case["n"] // 2 % 2]
    struct = _structure(*NAMES[case["n"] % len(NAMES)])
    sets = _sets(struct)
    for chosen in itertools.combinations(range(len(BUILDERS)), case["n"]):
        builder = StochasticNeighborhoodBuilder([BUILDERS[i]() for i in chosen])
        plain = builder.get(struct)
        nested = StochasticNeighborhoodBuilder([builder]).get(struct)
        only_a = builder.get(struct, site_class=a)
        direct = StochasticNeighborhood([BUILDERS[i]().get(struct) for i in chosen])
        for site in struct.site_ids[:6]:
            ctx.at(builders=chosen, site=site)
            options = [sets[i][site] for i in chosen]
            requests(ctx, plain, site, options)
            requests(ctx, nested, site, options, 1)
            requests(ctx, direct, site, options, 1)
            if struct.site_class(site) != a:
                options = [{}]
            requests(ctx, only_a, site, options)
            ctx.state((chosen, site))


def _classes(case, ctx):
    choices = list(range(len(BUILDERS))) + [None]
    made = [(names, _structure(*names)) for names in NAMES]
    made = [(names, struct, _sets(struct)) for names, struct in made]
    for n, rest in enumerate(itertools.product(choices, repeat=2)):
        names, struct, sets = made[(n + case["first"]) % len(made)]
        b = names[1]
        assignment = dict(zip(names, (choices[case["first"]],) + rest))
        spec = {c: BUILDERS[i]() for c, i in assignment.items() if i is not None}
        nb = SiteClassNeighborhoodBuilder(spec).get(struct)
        # the same, by hand, and with a stochastic choice for one of the classes
        mixed = dict(spec)
        pair = (0, 4)
        mixed[b] = StochasticNeighborhoodBuilder([BUILDERS[i]() for i in pair])
        stochastic = SiteClassNeighborhoodBuilder(mixed).get(struct)
        for site in struct.site_ids:
            i = assignment[struct.site_class(site)]
            want = {} if i is None else sets[i][site]
            ctx.at(assignment=assignment, site=site)
            got = nb.neighbors_of(site)
            ctx.check(sorted(got) == sorted(want), "wrong neighbors for the class of site",
                      site=site, got=sorted(got), expected=sorted(want))
            weighted = nb.neighbors_of(site, include_weights=True)
            ctx.check(
                sorted(s for s, _ in weighted) == sorted(want)
                and all(any(abs(w - d) <= 0.006 for d in want[s]) for s, w in weighted),
                "wrong neighbors or weights for the class of site", site=site, got=weighted)
            options = [want]
            if struct.site_class(site) == b:
                options = [sets[k][site] for k in pair]
            if site < 6:
                requests(ctx, stochastic, site, options)
            ctx.step()
            ctx.trace()
        ctx.state(tuple(assignment.items()))
