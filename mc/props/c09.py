"""Distances are distances to the closest periodic image."""

import itertools

import numpy as np

from pylattica.core import Lattice
from pylattica.core.lattice import pbc_diff_cart, pbc_diff_frac_vec

from .. import geo

BOUNDS = (
    "25 lattices in 1-4 dimensions (orthogonal, oblique, heavily sheared, left-handed), "
    "every choice of periodic axes, cells scaled by 1-3, all differences of fractional "
    "coordinates on a grid, from several origins, and all their images up to 2 cells away; a coarser "
    "grid, cells scaled by 1-25 and images 4-1000 cells away on one axis and on all"
)
ASSUMPTIONS = ["distances are rounded to 3 decimals"]

DIFFS = {
    1: [i / 12 for i in range(-14, 15)],
    2: (-1.3, -0.9, -0.5, -0.38, -0.2, 0, 0.07, 1 / 3, 0.45, 0.5, 0.62, 0.95, 1, 1.71),
    3: (-0.77, -0.5, -0.31, 0, 0.18, 0.44, 0.5, 0.69, 1.1),
    4: (-0.7, 0, 0.3, 0.5),
}
ORIGINS = {
    1: [(0,), (0.9,)],
    2: [(0, 0), (0.93, 0.11)],
    3: [(0, 0, 0), (0.05, 0.5, 0.98)],
    4: [(0.1, 0, 0.9, 0.4)],
}


def cases(tier):
    out = []
    for name in geo.LATTICES:
        for periodic in geo.patterns(geo.DIM[name]):
            dim = geo.DIM[name]
            scales = [(1,) * dim, (3,) + (1,) * (dim - 1)]
            if dim in (2, 3):
                scales.append((2,) * (dim - 1) + (3,))
            if tier == "thorough":
                scales = list(itertools.product((1, 2, 3), repeat=dim))
            for scale in scales:
                out.append({"lattice": name, "periodic": periodic, "cells": scale})
    for name in geo.LATTICES:
        for periodic in geo.patterns(geo.DIM[name]):
            if geo.DIM[name] < 4:
                out.append({"kind": "far", "lattice": name, "periodic": periodic})
    # the big ones first
    out.sort(key=lambda c: -geo.DIM[c["lattice"]])
    return out


def _far(case, ctx):
    """Points very many cells apart, and cells that are repeated many times."""
    periodic = tuple(case["periodic"])
    base = geo.LATTICES[case["lattice"]]
    dim = len(base)
    scales = [(1,) * dim, (25,) * dim, (12,) + (1,) * (dim - 1), (5,) * (dim - 1) + (8,)]
    for scale in scales:
        vecs = geo.scaled(base, scale)
        lattice = Lattice(base, periodic).get_scaled_lattice(scale)
        shifts = [[sign * m * (periodic[j] and (i is None or i == j)) for j in range(dim)]
                  for i in (None, *range(dim)) for m in (4, 7, 50, 1000) for sign in (1, -1)]
        shifts = [s for s in shifts if any(s)]
        for diff in itertools.product(DIFFS[dim][:: dim + 1], repeat=dim):
            want = geo.distance(geo.cart(diff, vecs), (0,) * dim, vecs, periodic)
            origin = ORIGINS[dim][-1]
            b = geo.cart(origin, vecs)
            for m in [[0] * dim] + shifts:
                a = geo.cart([o + d + k for o, d, k in zip(origin, diff, m)], vecs)
                ctx.at(a=a, b=b, image=m, cells=scale)
                _same(ctx, lattice.cartesian_periodic_distance(a, b), want, "far image")
                _same(ctx, lattice.cartesian_periodic_distance(b, a), want, "far, reversed")
                ctx.step(2)
            ctx.state((case["lattice"], periodic, scale, diff))
            ctx.trace()
            for m in (50, 150, -40000):
                far = [o + d + m * p for o, d, p in zip(origin, diff, periodic)]
                _fractional(ctx, far, origin, periodic)


def run(case, ctx):
    if case.get("kind") == "far":
        return _far(case, ctx)
    vecs = geo.scaled(geo.LATTICES[case["lattice"]], case["cells"])
    periodic = tuple(case["periodic"])
    dim = len(vecs)
    lattice = Lattice(geo.LATTICES[case["lattice"]], periodic).get_scaled_lattice(
        case["cells"]
    )
    axes = [i for i, p in enumerate(periodic) if p]
    far = [
        m
        for m in itertools.product((-1, 0, 2), repeat=dim)
        if all(periodic[i] or m[i] == 0 for i in range(dim)) and any(m)
    ]
    grid = DIFFS[dim]
    if ctx.tier == "thorough" and dim == 3:
        grid = sorted(set(grid) | {-0.6, 0.1, 0.25, 0.33})
    for diff in itertools.product(grid, repeat=dim):
        want = geo.distance(geo.cart(diff, vecs), (0,) * dim, vecs, periodic)
        for origin in ORIGINS[dim]:
            a = geo.cart([o + d for o, d in zip(origin, diff)], vecs)
            b = geo.cart(origin, vecs)
            ctx.at(a=a, b=b, fractional_difference=diff)
            got = lattice.cartesian_periodic_distance(a, b)
            _same(ctx, got, want)
            _same(ctx, lattice.cartesian_periodic_distance(b, a), want, "reversed")
            _same(ctx, pbc_diff_cart(np.array(a), np.array(b), lattice), want, "function")
            ctx.step(3)
            ctx.trace()
            _fractional(ctx, [o + d for o, d in zip(origin, diff)], origin, periodic)
        # every image is at the same distance
        for m in far[:: max(1, len(far) // 6)]:
            image = geo.cart([o + d + k for o, d, k in zip(origin, diff, m)], vecs)
            ctx.at(a=image, b=b, image=m)
            _same(ctx, lattice.cartesian_periodic_distance(image, b), want, "image")
            ctx.step()
        ctx.state((case["lattice"], periodic, case["cells"], diff))
        ctx.outcome(round(want, 3))
    ctx.check(len(axes) == sum(periodic), "")
    ctx.sample({"a": a, "b": b, "distance": got})


def _fractional(ctx, a, b, periodic):
    """The difference of fractional coordinates, reduced along the periodic axes."""
    for x, y in ((a, b), ([2 * v for v in a], b)):
        got = np.asarray(pbc_diff_frac_vec(x, y, periodic), float)
        for g, u, v, p in zip(got, x, y, periodic):
            full = u - v
            if p:
                fine = abs(g) <= 0.5 + 1e-9 and abs(g - full - round(g - full)) < 1e-9
            else:
                fine = abs(g - full) < 1e-9
            if not fine or len(got) != len(periodic):
                ctx.fail("wrong fractional difference", a=x, b=y, got=got.tolist())
        ctx.step()


def _same(ctx, got, want, how="forward"):
    if np.ndim(got) != 0 or not abs(float(got) - want) <= 0.0005 + 1e-6:
        ctx.fail("wrong distance", got=float(got) if np.ndim(got) == 0 else got,
                 expected=want, how=how)
