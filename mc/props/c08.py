"""Coordinates can be converted and periodized without changing the point they denote."""

import copy
import itertools
import json

import numpy as np

from pylattica.core import Lattice
from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
from pylattica.core.lattice import pbc_diff_frac_vec, periodize

from .. import geo

BOUNDS = (
    "25 lattices in 1-4 dimensions, every choice of periodic axes (as a boolean, tuple and "
    "list), all points of a grid of 11 (9, 7, 4) fractional coordinates per axis in 1 (2, 3, "
    "4) dimensions, points up to 10^6 cells away, cells scaled by 0.5-4; all integer boxes with bounds in -2..3"
)
ASSUMPTIONS = [
    "points that lie on a cell boundary up to floating point noise can be put on either face"
]

GRID = {
    1: (-3, -1.25, -1 / 3, -0.001, 0, 0.25, 0.5, 0.999, 0.99999, 1, 1.99999, 1.5, 2.75),
    2: (-2, -1.25, -0.001, 0, 0.25, 0.5, 0.999, 0.99999, 1, 2.75),
    3: (-1.25, -0.001, 0, 0.5, 1 / 3, 1, 2.75),
    4: (-1.25, 0, 0.5, 1.75),
}
# coordinates with exact representations, for exact comparisons
EXACT = (-3, -2.5, -1, -0.125, 0, 0.125, 0.5, 0.875, 1, 1.25, 7.5)


def cases(tier):
    out = []
    for name in geo.LATTICES:
        for periodic in geo.patterns(geo.DIM[name]):
            out.append({"kind": "lattice", "lattice": name, "periodic": periodic})
    for dim in (1, 2, 3, 4):
        out.append({"kind": "periodize", "dim": dim})
    out.append({"kind": "uneven"})
    for dim in (1, 2, 3):
        out.append({"kind": "boxes", "dim": dim})
    return out


def run(case, ctx):
    getattr(__import__(__name__, fromlist=["x"]), "_" + case["kind"])(case, ctx)


def _close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def _lattice(case, ctx):
    vecs, periodic = geo.LATTICES[case["lattice"]], tuple(case["periodic"])
    dim = len(vecs)
    forms = [("tuple", periodic), ("list", list(periodic))]
    if len(set(periodic)) == 1:
        forms.append(("bool", periodic[0]))
    if all(periodic):
        forms.append(("default", None))
    lattices = []
    for form, p in forms:
        given = copy.deepcopy(vecs)
        lattice = Lattice(given) if form == "default" else Lattice(given, p)
        lattices.append((form, lattice))
        lattices.append((form + ", as array", Lattice(np.array(vecs), lattice.periodic)))
        for way, again in (
            ("dictionary", lambda lat: Lattice.from_dict(lat.as_dict())),
            ("json", lambda lat: Lattice.from_dict(json.loads(json.dumps(lat.as_dict())))),
        ):
            lattices.append((f"{form}, from {way}", again(lattice)))
    for form, lattice in lattices:
        _one(ctx, lattice, vecs, periodic, form)
    # scaled
    for form, lattice in lattices[:1]:
        for cells in [*itertools.product((1, 2, 4), repeat=dim),
                      *itertools.product((0.5, 2.25), repeat=dim)]:
            for kind in (tuple, list, np.array):
                scaled = lattice.get_scaled_lattice(kind(cells))
                want = geo.scaled(vecs, cells)
                ctx.check(_close(scaled.vecs, want), "wrong vectors of the scaled lattice",
                          cells=cells, got=scaled.vecs)
                ctx.equal(tuple(scaled.periodic), periodic, "scaling changed periodicity")
                ctx.check(scaled is not lattice, "scaling returned the lattice itself")
                ctx.step()
            _one(ctx, scaled, want, periodic, f"scaled {cells}", few=True)
            _one(ctx, scaled.get_scaled_lattice(cells), geo.scaled(want, cells), periodic,
                 f"scaled {cells} twice", few=True)
        ctx.check(_close(lattice.vecs, vecs), "scaling changed the lattice")
    ctx.sample({"vecs": vecs, "periodic": periodic})


def _one(ctx, lattice, vecs, periodic, form, few=False):
    dim = len(vecs)
    ctx.at(form=form)
    ctx.equal(lattice.dim, dim, "wrong dimension")
    ctx.check(_close(lattice.vecs, vecs), "wrong vectors")
    ctx.check(_close(lattice.matrix, vecs), "wrong matrix")
    ctx.equal(tuple(bool(p) for p in lattice.periodic), periodic, "wrong periodicity")
    ctx.check(
        _close(lattice.vec_lengths, [sum(x * x for x in v) ** 0.5 for v in vecs]),
        "wrong lengths",
    )
    grid = GRID[dim] if not few else GRID[dim][1::2]
    fracs = list(itertools.product(grid, repeat=dim))
    carts = [geo.cart(f, vecs) for f in fracs]
    got_all = lattice.get_cartesian_coords(np.array(fracs))
    ctx.check(_close(got_all, carts), "wrong Cartesian coordinates of an array of points")
    ctx.check(
        _close(lattice.get_fractional_coords(np.array(carts)), fracs, 1e-7),
        "wrong fractional coordinates of an array of points",
    )
    ctx.check(_close(np.dot(lattice.matrix, lattice.inv_matrix), np.eye(dim)),
              "the inverse matrix is not the inverse")
    for many in (carts, carts[:1], carts[:dim], carts[:dim + 1]):
        each = [lattice.get_periodized_cartesian_coords(c) for c in many]
        ctx.check(_close(lattice.get_periodized_cartesian_coords(np.array(many)), each),
                  "an array of points is periodized differently", points=len(many))
    far = [1e5 + 0.25, -12345.75, 1e6 - 0.5, -99999.5][:dim]
    fracs, carts = [*fracs, far], [*carts, geo.cart(far, vecs)]
    for f, c in zip(fracs, carts):
        ctx.at(form=form, frac=f)
        got = lattice.get_cartesian_coords(f)
        ctx.check(_close(got, c), "wrong Cartesian coordinates", got=got, want=c)
        back = lattice.get_fractional_coords(c)
        ctx.check(_close(back, f, 1e-7), "wrong fractional coordinates", got=back, want=f)
        inside = lattice.get_periodized_cartesian_coords(c)
        fin = np.array(geo.frac(inside, vecs))
        moved = fin - np.array(f)
        for i in range(dim):
            if periodic[i]:
                ctx.check(abs(moved[i] - round(moved[i])) < 1e-6,
                          "periodizing moved the point to one that is not an image of it",
                          axis=i, got=inside)
                ctx.check(-1e-6 < fin[i] < 1 + 1e-6, "periodized point outside of the cell",
                          axis=i, got=inside)
            else:
                ctx.check(abs(moved[i]) < 1e-6,
                          "periodizing moved the point along a non-periodic axis", axis=i,
                          got=inside)
        ctx.state((form, f))
        ctx.step(3)
        ctx.trace()


def _periodize(case, ctx):
    dim = case["dim"]
    grid = EXACT if dim <= 2 else EXACT[::2] if dim == 3 else EXACT[1::4]
    fracs = list(itertools.product(grid, repeat=dim))
    for periodic in geo.patterns(dim):
        forms = [periodic]
        if len(set(periodic)) == 1:
            forms.append(periodic[0])
        for p in forms:
            for f in fracs:
                ctx.at(periodic=p, frac=f)
                want = [x - (x // 1 if q else 0) for x, q in zip(f, periodic)]
                got = periodize(np.array(f), p)
                ctx.check(list(got) == want, "periodized wrongly", got=got, want=want)
                ctx.check(list(periodize(got, p)) == want, "periodizing twice changes it")
                ctx.state((dim, periodic, f))
                ctx.step()
                ctx.trace()
        if all(periodic):
            for f in fracs:
                ctx.equal(list(periodize(np.array(f))), [x % 1 for x in f],
                          "not periodic by default")
        # differences
        for f, g in itertools.product(fracs[:: max(1, len(fracs) // 40)], fracs):
            ctx.at(periodic=periodic, a=f, b=g)
            d = pbc_diff_frac_vec(f, g, periodic)
            for x, a, b, q in zip(d, f, g, periodic):
                if q:
                    ctx.check(abs(x) <= 0.5 and (x - (a - b)) % 1 == 0,
                              "wrong periodic difference", got=d)
                else:
                    ctx.check(x == a - b, "wrong difference on a non-periodic axis", got=d)
            ctx.step()


def _uneven(case, ctx):
    for vecs in ([(1, 0), (0, 1, 0)], [(1, 0, 0), (0, 1)], [(1,), (1, 2)]):
        try:
            Lattice(vecs)
        except Exception:
            ctx.step()
            ctx.trace()
        else:
            ctx.fail("a lattice with vectors of different lengths is accepted", vecs=vecs)
    ctx.state("uneven")


def _boxes(case, ctx):
    dim = case["dim"]
    bounds = range(-2, 4) if dim < 3 else range(-1, 3)
    for lbs in itertools.product(bounds, repeat=dim):
        for ubs in itertools.product(bounds, repeat=dim):
            want = {
                p
                for p in itertools.product(range(-3, 5), repeat=dim)
                if all(lo <= x < hi for lo, x, hi in zip(lbs, p, ubs))
            } if dim < 3 else set(itertools.product(*map(range, lbs, ubs)))
            got = [tuple(p) for p in get_points_in_box(list(lbs), list(ubs))]
            ctx.check(len(got) == len(want) and set(got) == want, "wrong points in box",
                      lbs=lbs, ubs=ubs, got=got)
            ctx.state((lbs, ubs))
            ctx.step()
            ctx.trace()
            if len(set(lbs)) == 1 and len(set(ubs)) == 1:
                got = [tuple(p) for p in get_points_in_cube(lbs[0], ubs[0], dim)]
                ctx.check(len(got) == len(want) and set(got) == want,
                          "wrong points in cube", lb=lbs[0], ub=ubs[0], got=got)
