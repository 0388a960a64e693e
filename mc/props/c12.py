"""Distance neighborhoods hold exactly the sites whose closest image is within the range."""

import itertools

import numpy as np

from pylattica.core import DistanceNeighborhoodBuilder, Lattice, PeriodicStructure
from pylattica.core.constants import LOCATION
from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder
from pylattica.structures.honeycomb import (
    HoneycombNeighborhoodBuilder,
    HoneycombTilingBuilder,
)
from pylattica.structures.square_grid.neighborhoods import CircularNeighborhoodBuilder

from .. import geo
from .c10 import MOTIFS, motif_for

BOUNDS = (
    "25 lattices in 1-4 dimensions, every choice of periodic axes, 2-3 sizes, 4 motifs of "
    "1-5 sites; every range with ends between consecutive distances that occur (up to 6 "
    "ends spread over all of them), for all sites and for those of each class; ranges "
    "that end at distances that occur, on square grids; 7 structures of 72-225 "
    "sites, with ranges that hold a few to all of them"
)
ASSUMPTIONS = [
    "distances on square grids apart, no two sites are at a distance within 0.002 of an "
    "end of the range",
    "weights are distances, rounded to 3 decimals",
]

SIZES = {
    1: [(1,), (5,), (2,)],
    2: [(1, 1), (3, 3), (2, 4)],
    3: [(1, 1, 1), (2, 2, 2), (3, 1, 2)],
    4: [(2, 1, 1, 2)],
}


def cases(tier):
    out = []
    for name in geo.LATTICES:
        dim = geo.DIM[name]
        for periodic in geo.patterns(dim):
            for motif in ("origin", "two", "thirds", "many"):
                for size in SIZES[dim]:
                    if tier == "quick" and dim > 2 and motif in ("origin", "many"):
                        if not all(periodic):
                            continue
                    if tier == "quick" and dim == 4 and motif == "many":
                        continue
                    out.append({"kind": "structure", "lattice": name, "periodic": periodic,
                                "motif": motif, "size": size})
    for name, size in (("line", (80,)), ("square", (15, 15)), ("hex60", (11, 12)),
                       ("rect", (9, 8)), ("sheared", (8, 9)), ("cubic", (6, 5, 5)),
                       ("hex3", (3, 4, 3))):
        for periodic in geo.patterns(len(size)):
            if len(size) < 3 or sum(periodic) in (0, 3):
                out.append({"kind": "large", "lattice": name, "size": size,
                            "periodic": periodic})
    out.append({"kind": "honeycomb"})
    out += [{"kind": "ends", "dim": dim} for dim in (1, 2, 3)]
    return out


def ends(distances, most):
    """Numbers that lie well between consecutive distances, and beyond all of them."""
    ds = sorted(distances)
    out = [ds[0] / 2] if ds and ds[0] > 0.01 else []
    for a, b in zip(ds, ds[1:]):
        if b - a > 0.006:
            out.append((a + b) / 2)
    out.append((ds[-1] if ds else 0) + 0.5)
    if len(out) > most:
        pick = [round(i * (len(out) - 1) / (most - 1)) for i in range(most)]
        out = [out[i] for i in pick]
    return out


NAMES = [("x", "y"), (0, ""), ("1", 1), ((), False)]


def run(case, ctx):
    if case["kind"] == "honeycomb":
        return _honeycomb(ctx)
    if case["kind"] == "large":
        return _large(case, ctx)
    if case["kind"] == "ends":
        return _ends(case, ctx)
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    periodic = tuple(case["periodic"])
    motif = motif_for(case["motif"], dim, vecs, True)
    # a class of sites can be anything
    names = NAMES[(sum(periodic) + sum(case["size"])) % len(NAMES)]
    if isinstance(motif, dict):
        motif = {names[i % 2] if i < 2 else c: at for i, (c, at) in enumerate(motif.items())}
    struct = PeriodicStructure.build_from(
        Lattice(vecs, periodic), list(case["size"]), motif, frac_coords=True
    )
    big = geo.scaled(vecs, case["size"])
    table = distances(struct, big, periodic)
    everything = [d for d in table.values()]
    cuts = ends(everything, 6 if ctx.quick else 12)
    classes = [None] + sorted(struct.all_site_classes(), key=repr)
    for outer in cuts:
        for cls in classes if outer == cuts[len(cuts) // 2] else classes[:1]:
            ctx.at(cutoff=outer, site_class=cls)
            for make in (DistanceNeighborhoodBuilder, CircularNeighborhoodBuilder):
                nb = make(outer)
                nb = nb.get(struct) if cls is None else nb.get(struct, site_class=cls)
                compare(ctx, struct, nb, table, -1, outer, cls)
                if outer != cuts[0]:
                    break
        for inner in [0] + [c for c in cuts if c < outer]:
            ctx.at(inner=inner, outer=outer)
            nb = AnnularNeighborhoodBuilder(inner, outer).get(struct)
            compare(ctx, struct, nb, table, inner, outer, None)
        ctx.state((case["lattice"], periodic, case["motif"], case["size"], outer))
        ctx.trace()
    for cls in classes[1:]:
        ctx.at(inner=cuts[0], outer=cuts[-1], site_class=cls)
        nb = AnnularNeighborhoodBuilder(cuts[0], cuts[-1]).get(struct, site_class=cls)
        compare(ctx, struct, nb, table, cuts[0], cuts[-1], cls)
    ctx.sample({"ends": cuts, "sites": len(struct.site_ids)})


def _large(case, ctx):
    """Many sites, and ranges that hold many of them."""
    vecs, size = geo.LATTICES[case["lattice"]], tuple(case["size"])
    periodic = tuple(case["periodic"])
    motif = {"A": [(0.0,) * len(size)]}
    if len(size) > 1:
        motif["B"] = [(0.5,) * len(size)] if size[0] < 10 else []
    struct = PeriodicStructure.build_from(
        Lattice(vecs, periodic), list(size), motif, frac_coords=True)
    table = distances(struct, geo.scaled(vecs, size), periodic)
    ds = sorted(table.values())
    cuts = []
    for i in (1, len(ds) // 40, len(ds) // 15, len(ds) // 4, len(ds) // 2):
        # the next gap after so many of the distances
        gap = next((k for k in range(i, len(ds) - 1) if ds[k + 1] - ds[k] > 0.006), None)
        if gap is not None:
            cuts.append((ds[gap] + ds[gap + 1]) / 2)
    cuts.append(ds[-1] + 0.5)
    for k, outer in enumerate(cuts):
        ctx.at(cutoff=outer)
        compare(ctx, struct, DistanceNeighborhoodBuilder(outer).get(struct), table, -1, outer,
                None)
        if k:
            nb = AnnularNeighborhoodBuilder(cuts[k - 1], outer).get(struct)
            compare(ctx, struct, nb, table, cuts[k - 1], outer, None)
        ctx.state(("large", case["lattice"], periodic, outer))
        ctx.trace()


def _ends(case, ctx):
    """Distances that are integers: the ends of the range do not belong to it."""
    dim = case["dim"]
    vecs = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    for cells in [(n,) * dim for n in (1, 2, 4, 7, 9)][: 5 if dim < 3 else 3]:
        for periodic in (True, False):
            struct = PeriodicStructure.build_from(
                Lattice(vecs, periodic), list(cells), {"A": [(0,) * dim]})
            table = distances(struct, geo.scaled(vecs, cells), (periodic,) * dim)
            whole = [1, 2, 3, 5]
            for outer in whole:
                ctx.at(cells=cells, periodic=periodic, outer=outer)
                compare(ctx, struct, DistanceNeighborhoodBuilder(outer).get(struct), table,
                        -1, outer - 1e-6, None)
                for inner in [0] + [i for i in whole if i < outer]:
                    compare(ctx, struct, AnnularNeighborhoodBuilder(inner, outer).get(struct),
                            table, inner + 1e-6, outer - 1e-6, None)
                ctx.state(("ends", cells, periodic, outer))
            ctx.trace()


def distances(struct, vecs, periodic):
    out = {}
    where = {s: np.array(struct.site_location(s), float) for s in struct.site_ids}
    for a, b in itertools.combinations(struct.site_ids, 2):
        out[a, b] = out[b, a] = geo.distance(where[a], where[b], vecs, periodic)
    return out


def compare(ctx, struct, nb, table, inner, outer, cls):
    for a in struct.site_ids:
        want = {
            b: table[a, b]
            for b in struct.site_ids
            if b != a and inner < table[a, b] < outer
        }
        if cls is not None and struct.site_class(a) != cls:
            want = {}
        got = nb.neighbors_of(a)
        ctx.check(sorted(got) == sorted(want), "wrong neighbors", site=a, got=sorted(got),
                  expected=sorted(want), location=struct.get_site(a)[LOCATION])
        ctx.check(sorted(nb.neighbors_of(a)) == sorted(want), "other neighbors when asked "
                  "again", site=a)
        weighted = nb.neighbors_of(a, include_weights=True)
        ctx.check(sorted(b for b, _ in weighted) == sorted(want),
                  "wrong neighbors with weights", site=a)
        for b, w in weighted:
            ctx.check(abs(w - want[b]) <= 0.0005 + 1e-6, "wrong weight", site=a, neighbor=b,
                      got=w, expected=want[b])
        ctx.step()
        ctx.outcome((len(want),))


def _honeycomb(ctx):
    for size in (1, 2, 3, 4, 5, (3, 4), (5, 2)):
        struct = HoneycombTilingBuilder().build(size)
        cells = (size, size) if isinstance(size, int) else size
        big = geo.scaled(geo.LATTICES["hex60"], cells)
        table = distances(struct, big, (True, True))
        ctx.at(size=size)
        nb = HoneycombNeighborhoodBuilder().get(struct)
        compare(ctx, struct, nb, table, -1, 1.1, None)
        if min(cells) >= 3:
            for s in struct.site_ids:
                ctx.check(len(nb.neighbors_of(s)) == 6, "not 6 neighbors", site=s)
        ctx.state(("honeycomb", size))
        ctx.trace()


assert set(MOTIFS) >= {"origin", "two", "thirds", "many"}
