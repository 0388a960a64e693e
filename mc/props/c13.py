"""Motif neighborhoods hold exactly the sites at the offsets of the motif."""

import itertools

from pylattica.core import Lattice, MotifNeighborhoodBuilder, PeriodicStructure
from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap
from pylattica.structures.square_grid import (
    MooreNbHoodBuilder,
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
    VonNeumannNbHood2DBuilder,
    VonNeumannNbHood3DBuilder,
)

from .. import geo
from .c10 import motif_for

BOUNDS = (
    "Moore and von Neumann neighborhoods of sizes 1-3 in 1-3 dimensions on every grid of "
    "1-6 (1-4 in 3 dimensions) cells per axis with every choice of periodic axes, and "
    "of sizes up to 10 on 4 larger grids (up to 12x15 and 5x7x6); all motifs of up to 3 (2) of the offsets between the sites of 23 other lattices; relative "
    "locations on a grid for the distance maps"
)
ASSUMPTIONS = [
    "an offset leads to a site if it ends within half a unit of the last decimal of its "
    "location, and to none if it ends further than 1.5 units from any",
    "if several offsets lead to the same site, its weight is the length of one of them",
    "lengths are rounded to 2 decimals",
]


def cases(tier):
    out = []
    for dim in (1, 2, 3):
        top = {1: 7, 2: 6, 3: 4}[dim]
        for periodic in geo.patterns(dim):
            for kind in ("moore", "neumann"):
                if kind == "neumann" and dim == 1:
                    continue
                for size in (1, 2, 3) if dim < 3 else (1, 2):
                    out.append({"kind": kind, "dim": dim, "size": size, "top": top,
                                "periodic": periodic})
    # larger grids and neighborhoods
    for kind in ("moore", "neumann"):
        for cells, sizes in (((12, 15), (1, 2, 4, 6, 9)), ((21, 3), (1, 3, 10)),
                             ((5, 7, 6), (1, 2, 3)), ((9, 2, 3), (1, 4))):
            for periodic in ((True,) * len(cells), (False,) + (True,) * (len(cells) - 1),
                             (False,) * len(cells)):
                for size in sizes:
                    out.append({"kind": kind, "dim": len(cells), "size": size,
                                "cells": cells, "periodic": periodic})
    for name in geo.LATTICES:
        for periodic in geo.patterns(geo.DIM[name]):
            for motif in ("origin", "thirds"):
                out.append({"kind": "offsets", "lattice": name, "periodic": periodic,
                            "motif": motif, "most": 3 if tier == "thorough" else 2})
    out.append({"kind": "maps"})
    return out


def run(case, ctx):
    if case["kind"] == "maps":
        return _maps(ctx)
    if case["kind"] == "offsets":
        return _offsets(case, ctx)
    return _grid(case, ctx)


def norm(v):
    return sum(x * x for x in v) ** 0.5


def expected(struct, vecs, periodic, offsets, site):
    """neighbor -> lengths of the offsets which lead there, of one site"""
    where = {s: struct.site_location(s) for s in struct.site_ids}
    out = {}
    for v in offsets:
        at = [x + y for x, y in zip(where[site], v)]
        for s in geo.find(at, where, vecs, periodic, 0.0012):
            if s != site:
                out.setdefault(s, []).append(norm(v))
    return out


def compare(ctx, struct, nb, vecs, periodic, offsets, cls=None, weights=True):
    for site in struct.site_ids:
        want = expected(struct, vecs, periodic, offsets, site)
        if cls is not None and struct.site_class(site) != cls:
            want = {}
        _compare(ctx, nb, site, want, weights)


def _compare(ctx, nb, site, want, weights):
    got = nb.neighbors_of(site)
    ctx.check(sorted(got) == sorted(want), "wrong neighbors", site=site,
              got=sorted(got, key=repr), expected=sorted(want))
    weighted = nb.neighbors_of(site, include_weights=True)
    ctx.check(sorted(s for s, _ in weighted) == sorted(want),
              "wrong neighbors with weights", site=site, got=weighted)
    if weights:
        for s, w in weighted:
            ctx.check(any(abs(w - d) <= 0.006 for d in want[s]), "wrong weight",
                      site=site, neighbor=s, got=w, expected=want[s])
    ctx.step()


def _grid(case, ctx):
    dim, size, periodic = case["dim"], case["size"], tuple(case["periodic"])
    span = range(-size, size + 1)
    if case["kind"] == "moore":
        builder = MooreNbHoodBuilder(size, dim=dim)
        if (size, dim) == (1, 2):
            builder = MooreNbHoodBuilder()
        offsets = [v for v in itertools.product(span, repeat=dim) if any(v)]
    else:
        builder = (VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder)(size)
        if (size, dim) == (1, 2):
            builder = VonNeumannNbHood2DBuilder()
        offsets = [v for v in itertools.product(span, repeat=dim)
                   if 0 < sum(map(abs, v)) <= size]
    vecs = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    grids = itertools.product(range(1, case.get("top", 0) + 1), repeat=dim)
    for cells in [tuple(case["cells"])] if "cells" in case else grids:
        ctx.at(cells=cells)
        # the unit vectors in another order make another layout of the same grid
        structs = [PeriodicStructure.build_from(
            Lattice(vecs, periodic), list(cells), {"A": [(0,) * dim]})]
        if all(periodic) and dim > 1:
            structs.append(
                (SimpleSquare2DStructureBuilder if dim == 2
                 else SimpleSquare3DStructureBuilder)().build(
                     (cells[1], cells[0]) + cells[2:]))
        for struct in structs:
            nb = builder.get(struct)
            ids = {tuple(round(float(x)) for x in struct.site_location(s)): s
                   for s in struct.site_ids}
            ctx.equal(sorted(ids), sorted(itertools.product(*map(range, cells))), "not a grid")
            for at, site in ids.items():
                want = {}
                for v in offsets:
                    to = tuple(
                        (x + d) % n if p else x + d
                        for x, d, n, p in zip(at, v, cells, periodic)
                    )
                    if to in ids and ids[to] != site:
                        want.setdefault(ids[to], []).append(norm(v))
                _compare(ctx, nb, site, want, True)
            if all(periodic) and min(cells) > 2 * size:
                ctx.check(all(len(nb.neighbors_of(s)) == len(offsets) for s in ids.values()),
                          "not every offset gives a neighbor")
        ctx.state((case["kind"], dim, size, periodic, cells))
        ctx.trace()
    # only for a class of sites, of which there is only this one
    ctx.equal(sorted(builder.get(struct, site_class="none").neighbors_of(0)), [],
              "sites of other classes have neighbors")
    ctx.sample({"cells": cells, "offsets": len(offsets)})


def _offsets(case, ctx):
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    periodic = tuple(case["periodic"])
    motif = motif_for(case["motif"], dim, vecs, True)
    cells = {1: (4,), 2: (3, 2), 3: (2, 2, 1), 4: (2, 1, 1, 2)}[dim]
    # a class of sites can be anything
    names = [("x", "y"), (0, ""), ("1", 1), ((), False)][(dim + sum(periodic)) % 4]
    struct = PeriodicStructure.build_from(
        Lattice(vecs, periodic), list(cells),
        {names[i]: at for i, at in enumerate(motif.values())} if isinstance(motif, dict)
        else motif, frac_coords=True,
    )
    big = geo.scaled(vecs, cells)
    pool = [geo.cart(f, vecs) for f in _fracs(dim)]
    if case["motif"] == "thirds":
        a, b = motif["x"][:2]
        c = motif["y"][0]
        for p, q in ((a, c), (c, a), (b, a), (c, b)):
            pool.append(geo.cart([y - x for x, y in zip(p, q)], vecs))
            pool.append(geo.cart([y - x + (i == 0) for i, (x, y) in enumerate(zip(p, q))],
                                 vecs))
    pool.append(geo.cart([0.123] * dim, vecs))
    pool.append(geo.cart([0.5] * dim, vecs))
    for most in range(1, case["most"] + 1):
        for n, chosen in enumerate(itertools.combinations(pool, most)):
            # one after the other as tuples, as lists
            given = [list(v) if n % 2 else tuple(v) for v in chosen]
            ctx.at(offsets=given)
            nb = MotifNeighborhoodBuilder(given).get(struct)
            compare(ctx, struct, nb, big, periodic, chosen)
            ctx.state((case["lattice"], periodic, case["motif"], chosen))
            ctx.trace()
            if n % 5 == 0:
                for cls in sorted(struct.all_site_classes(), key=repr):
                    ctx.at(offsets=given, site_class=cls)
                    nb = MotifNeighborhoodBuilder(given).get(struct, site_class=cls)
                    compare(ctx, struct, nb, big, periodic, chosen, cls)
    ctx.at(offsets="all")
    nb = MotifNeighborhoodBuilder(pool).get(struct)
    compare(ctx, struct, nb, big, periodic, pool)
    ctx.sample({"offsets": chosen})


def _fracs(dim):
    out = []
    for i in range(dim):
        for k in (1, -1, 2):
            out.append(tuple(k * (i == j) for j in range(dim)))
    out.append((1,) * dim)
    out.append((-1, 1, 0, 2)[:dim])
    out.append((5, -4, 3, -2)[:dim])
    return list(dict.fromkeys(out))


def _maps(ctx):
    values = (-3, -1.5, -1, 0, 0.25, 1, 2, 1 / 3)
    for dim in (1, 2, 3):
        points = list(itertools.product(values, repeat=dim))
        for cls, want in (
            (EuclideanDistanceMap, norm),
            (ManhattanDistanceMap, lambda v: sum(map(abs, v))),
        ):
            for given in (points, [list(p) for p in points], points[:1], points[::-1]):
                dmap = cls(given)
                for p in given:
                    for q in (tuple(p), list(p)):
                        got = dmap.get_dist(q)
                        ctx.check(got is not None and abs(got - want(p)) <= 0.0051,
                                  "wrong distance", map=cls.__name__, location=p, got=got)
                    ctx.state((cls.__name__, tuple(p)))
                    ctx.step()
                ctx.trace()
