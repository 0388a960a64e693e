"""Tiling a motif puts one site at every position of the tiling, found at all its images."""

import copy
import itertools

import numpy as np

from pylattica.core import Lattice, PeriodicStructure, StructureBuilder
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID
from pylattica.structures.honeycomb import HoneycombTilingBuilder
from pylattica.structures.square_grid import (
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
)

from .. import geo

BOUNDS = (
    "25 lattices in 1-4 dimensions, every choice of periodic axes, all sizes from 1-3 per "
    "axis (1-2 from 3 dimensions on), 7 motifs (3 if 3 or more dimensions are not all periodic) in fractional and Cartesian coordinates; "
    "every site looked up at all its images up to 2 cells away on every axis, exactly and "
    "displaced within the rounding of locations; every point midway between sites; up to 143 cells (130 in a "
    "row) with images up to 400 cells away for 3 motifs"
)
ASSUMPTIONS = [
    "a site is found at points less than half a unit of the last decimal that is kept "
    "(0.001) away from its location, and not at points further than 1.5 units away; "
    "in between, either is accepted"
]

# fractional coordinates per axis; axis i of a motif point is taken cyclically
MOTIFS = {
    "origin": {"A": [(0, 0, 0, 0)]},
    "center": [(0.5, 0.5, 0.5, 0.5)],
    "two": {"A": [(0, 0, 0, 0)], "B": [(0.5, 0.5, 0.5, 0.5)]},
    "thirds": {"x": [(1 / 3, 2 / 3, 0.25, 0.1), (2 / 3, 1 / 3, 0.75, 0.2)], "y": [(0,) * 4]},
    "outside": {"A": [(-0.25, 1.5, 0.25, 3.125)], "B": [(2.5, -0.125, -3.25, 0.5)]},
    "edge": {"A": [(1, 0, 1, 0)], "B": [(0.995, 0.005, 0.5, 0)], "C": [(0.2, 0.999, 0, 1)]},
    "many": {
        "a": [(0.1, 0.1, 0.1, 0.1), (0.9, 0.1, 0.5, 0.3)],
        "b": [(0.15, 0.6, 0.35, 0.2), (0.65, 0.85, 0.9, 0.8), (0.4, 0.3, 0.7, 0.6)],
        "unused": [],
    },
}


def motif_for(name, dim, vecs, frac):
    motif = MOTIFS[name]
    items = motif.items() if isinstance(motif, dict) else [(None, motif)]
    out = {}
    for cls, points in items:
        points = [p[:dim] for p in points]
        out[cls] = points if frac else [geo.cart(p, vecs) for p in points]
    return out if isinstance(motif, dict) else out[None]


def cases(tier):
    out = []
    for name in geo.LATTICES:
        dim = geo.DIM[name]
        for periodic in geo.patterns(dim):
            for motif in MOTIFS:
                if tier == "quick" and dim >= 3 and not all(periodic):
                    if motif not in ("thirds", "outside", "edge"):
                        continue
                out.append({"kind": "tile", "lattice": name, "periodic": periodic,
                            "motif": motif})
    out.append({"kind": "builders"})
    for name in geo.LATTICES:
        if geo.DIM[name] < 4:
            out.append({"kind": "large", "lattice": name})
    return out


def run(case, ctx):
    if case["kind"] == "builders":
        return _builders(ctx)
    if case["kind"] == "large":
        return _large(case, ctx)
    vecs = geo.LATTICES[case["lattice"]]
    periodic = tuple(case["periodic"])
    dim = len(vecs)
    top = {1: 4, 2: 3, 3: 2, 4: 2}[dim] + (ctx.tier == "thorough" and dim < 4)
    sizes = list(itertools.product(range(1, top + 1), repeat=dim))
    if ctx.quick and dim >= 3:
        sizes = sizes[::3] + sizes[-1:]
    for size in sizes:
        for frac in (True, False):
            motif = motif_for(case["motif"], dim, vecs, frac)
            as_dict = motif if isinstance(motif, dict) else {"A": motif}
            want = geo.tile(vecs, size, as_dict, frac)
            big = geo.scaled(vecs, size)
            if _too_close(want, big, periodic):
                ctx.count("skipped_because_sites_coincide")
                continue
            ways = ["tuple", "build_from"]
            if len(set(size)) == 1:
                ways.append("int")
            for way in ways:
                lattice = Lattice(vecs, periodic)
                given = copy.deepcopy(motif)
                ctx.at(size=size, frac=frac, way=way)
                if way == "build_from":
                    struct = PeriodicStructure.build_from(
                        lattice, list(size), given, frac_coords=frac
                    )
                else:
                    builder = StructureBuilder(lattice, given)
                    builder.frac_coords = frac
                    struct = builder.build(size if way == "tuple" else size[0])
                    # a builder builds the same again
                    if way == "tuple":
                        builder.build(1)
                        struct = builder.build(size)
                ctx.equal(given, motif, "building changed the motif")
                ctx.check(np.allclose(lattice.vecs, vecs), "building changed the lattice")
                verify(ctx, struct, want, big, periodic, full=way == "tuple")
                ctx.trace()
            ctx.state((case["lattice"], periodic, case["motif"], size, frac))
    # sizes that do not fit the dimension
    builder = StructureBuilder(Lattice(vecs, periodic), {"A": [(0,) * dim]})
    for wrong in ((1,) * (dim + 1), (2,) * (dim - 1)):
        try:
            builder.build(wrong)
        except ValueError:
            ctx.step()
        else:
            ctx.fail("a size of the wrong dimension is accepted", size=wrong)
    ctx.sample({"size": size, "sites": len(want)})


def _large(case, ctx):
    """Many cells, and images very many cells away."""
    vecs = geo.LATTICES[case["lattice"]]
    dim = len(vecs)
    sizes = {1: [(40,), (130,)], 2: [(12, 1), (1, 17), (13, 11)],
             3: [(11, 1, 2), (2, 10, 1), (5, 6, 4)]}[dim]
    for periodic in ((True,) * dim, (True,) + (False,) * (dim - 1), (False,) * dim):
        for size in sizes:
            for name in ("origin", "thirds", "many"):
                motif = motif_for(name, dim, vecs, True)
                want = geo.tile(vecs, size, motif, True)
                big = geo.scaled(vecs, size)
                if _too_close(want, big, periodic):
                    ctx.count("skipped_because_sites_coincide")
                    continue
                ctx.at(size=size, periodic=periodic, motif=name)
                builder = StructureBuilder(Lattice(vecs, periodic), motif)
                builder.frac_coords = True
                struct = builder.build(size)
                verify(ctx, struct, want, big, periodic, full=False)
                exact = match(ctx, struct, want, big, periodic)
                for sid in list(exact)[:: len(exact) // 10] + list(exact)[-3:]:
                    for m, i in itertools.product((3, -6, 50, -400), range(-1, dim)):
                        shift = [m * (periodic[j] and i in (-1, j)) for j in range(dim)]
                        at = tuple(p + c for p, c in zip(exact[sid], geo.cart(shift, big)))
                        ctx.equal(struct.id_at(at), sid, "not found at a far image", at=at)
                        ctx.step()
                ctx.state((case["lattice"], periodic, size, name))
                ctx.trace()


def _too_close(want, vecs, periodic):
    points = {i: p for i, (_, p) in enumerate(want)}
    return any(len(geo.find(p, points, vecs, periodic, 0.0045)) > 1
               for p in points.values())


def match(ctx, struct, want, vecs, periodic):
    """id -> exact position, given the list of (class, position)"""
    sites = struct.sites()
    ctx.equal(len(sites), len(want), "wrong number of sites")
    ids = [s[SITE_ID] for s in sites]
    ctx.equal(sorted(ids), list(range(len(want))), "site ids are not 0, 1, ...")
    ctx.equal(sorted(struct.site_ids), sorted(ids), "site_ids does not list the sites")
    left = {i: pos for i, (_, pos) in enumerate(want)}
    exact = {}
    for site in sites:
        hits = [
            i for i in geo.find(site[LOCATION], left, vecs, periodic, 0.00051)
            if want[i][0] == site[SITE_CLASS]
        ]
        ctx.check(len(hits) == 1, "a site that is not part of the tiling, or twice",
                  site=site, hits=len(hits))
        exact[site[SITE_ID]] = want[hits[0]][1]
        del left[hits[0]]
    return exact


def verify(ctx, struct, want, vecs, periodic, full=True):
    dim = len(vecs)
    ctx.equal(struct.dim, dim, "wrong dimension")
    ctx.check(np.allclose(struct.lattice.vecs, vecs), "wrong lattice")
    ctx.equal(tuple(bool(p) for p in struct.lattice.periodic), periodic, "wrong periodicity")
    exact = match(ctx, struct, want, vecs, periodic)
    classes = {}
    for cls, _ in want:
        classes[cls] = classes.get(cls, 0) + 1
    ctx.equal(sorted(struct.all_site_classes()), sorted(classes), "wrong site classes")
    for cls, n in classes.items():
        of_class = struct.sites(cls)
        ctx.check(len(of_class) == n and all(s[SITE_CLASS] == cls for s in of_class),
                  "wrong sites of a class", cls=cls)
    ctx.equal(struct.sites("no such class"), [], "sites of a class that is not there")
    ctx.check(struct.get_site(len(want)) is None, "a site with an id that is not there")
    by_class = {k: [s[SITE_ID] for s in struct.sites(k)] for k in classes}
    for sid, pos in exact.items():
        site = struct.get_site(sid)
        ctx.equal(site[SITE_ID], sid, "get_site gives another site")
        ctx.check(sid in by_class[site[SITE_CLASS]], "class does not agree")
        ctx.equal(struct.site_class(sid), site[SITE_CLASS], "site_class does not agree")
        ctx.check(np.array_equal(struct.site_location(sid), site[LOCATION]),
                  "site_location does not agree")
        f = geo.frac(site[LOCATION], vecs)
        slack = 0.00051 * np.abs(np.linalg.inv(np.array(vecs, float))).sum(axis=0) + 1e-6
        for i in range(dim):
            if periodic[i]:
                ctx.check(-slack[i] <= f[i] <= 1 + slack[i],
                          "a site outside of the periodic cell", site=site)
        ctx.step()
    lookups(ctx, struct, exact, vecs, periodic, full)


def lookups(ctx, struct, exact, vecs, periodic, full=True):
    dim = len(vecs)
    reach = (-2, -1, 0, 1, 2) if dim <= 2 else (-1, 0, 1) if dim == 3 else (0, 1)
    shifts = list(itertools.product(reach, repeat=dim))
    wiggles = [(0,) * dim]
    wiggles.append(tuple(-1e-9 if i % 2 == 0 else 1e-9 for i in range(dim)))
    wiggles.append((0.0004,) * dim)
    wiggles.append(tuple(-0.0004 if i % 2 == 0 else 0.0004 for i in range(dim)))
    if not full:
        shifts = [s for s in shifts if sum(map(abs, s)) <= 1]
        wiggles = wiggles[:1]
    n = 0
    # of many sites, all the images of the first and last ones, and the nearest of others
    for k, (sid, pos) in enumerate(exact.items()):
        few = len(exact) * len(shifts) > 250 and 2 <= k < len(exact) - 2
        for shift in shifts:
            if few and sum(map(abs, shift)) > 1:
                continue
            image = tuple(p + c for p, c in zip(pos, geo.cart(shift, vecs)))
            outside = any(s and not p for s, p in zip(shift, periodic))
            for w in wiggles if not any(shift) or sum(map(abs, shift)) == 1 else wiggles[:1]:
                at = tuple(a + b for a, b in zip(image, w))
                n += 1
                if outside:
                    hits = geo.find(at, exact, vecs, periodic)
                    if not hits:
                        ctx.check(struct.site_at(at) is None and struct.id_at(at) is None
                                  and struct.class_at(at) is None,
                                  "a site beyond a non-periodic boundary", at=at,
                                  got=struct.site_at(at))
                    continue
                got = struct.id_at(at)
                if got != sid:
                    ctx.fail("the site is not found at an image of its location",
                             at=at, site=sid, got=got, image=shift)
                if not any(w):
                    site = struct.site_at(at)
                    ctx.check(site is not None and site[SITE_ID] == sid,
                              "site_at does not agree with id_at", at=at)
                    ctx.equal(struct.class_at(at), site[SITE_CLASS],
                              "class_at does not agree with site_at")
                    if full and not any(shift):
                        ctx.equal(struct.id_at(np.array(at)), sid, "not found by an array")
                        ctx.equal(struct.id_at(list(at)), sid, "not found by a list")
    # points without a site
    points = list(exact.values())
    others = [tuple((x + y) / 2 for x, y in zip(points[0], q)) for q in points[1:8]]
    for p in points[:3] + points[-1:]:
        for i in range(dim):
            for d in (0.003, -0.003, 0.05, 0.77):
                others.append(tuple(x + d * (j == i) for j, x in enumerate(p)))
    for at in others:
        hits = geo.find(at, exact, vecs, periodic, 0.0016)
        n += 1
        if not hits:
            ctx.check(struct.site_at(at) is None and struct.id_at(at) is None
                      and struct.class_at(at) is None,
                      "a site where there is none", at=at, got=struct.site_at(at))
    ctx.step(n)


def _builders(ctx):
    r3 = 3**0.5
    for name, make, vecs, motif in (
        ("square2", SimpleSquare2DStructureBuilder, [(0, 1), (1, 0)], (0, 0)),
        ("square3", SimpleSquare3DStructureBuilder, [(0, 1, 0), (1, 0, 0), (0, 0, 1)],
         (0, 0, 0)),
        ("honeycomb", HoneycombTilingBuilder, [(1, 0), (0.5, r3 / 2)], (0.5, 0.5)),
    ):
        builder = make()
        dim = len(vecs)
        top = 6 if dim == 2 else 3
        sizes = list(itertools.product(range(1, top + 1), repeat=dim)) + [7, 5, 4, 1]
        for size in sizes:
            cells = (size,) * dim if isinstance(size, int) else size
            struct = builder.build(size)
            want = geo.tile(vecs, cells, {make.SITE_CLASS: [motif]}, True)
            ctx.at(builder=name, size=size)
            verify(ctx, struct, want, geo.scaled(vecs, cells), (True,) * dim,
                   full=size in (2, 3, 7))
            if name != "honeycomb":
                got = sorted(tuple(float(x) for x in s[LOCATION]) for s in struct.sites())
                grid = set()
                for n in itertools.product(*map(range, cells)):
                    grid.add(geo.cart(n, vecs))
                ctx.equal(got, sorted(grid), "the sites are not at the integer points")
            ctx.state((name, size))
            ctx.trace()
