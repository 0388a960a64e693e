"""Lattices and the reference geometry: plain definitions, by enumeration of images."""

import itertools
import math

import numpy as np

R3 = math.sqrt(3)

LATTICES = {
    "line": [(1,)],
    "line.7": [(0.7,)],
    "square": [(1, 0), (0, 1)],
    "swapped": [(0, 1), (1, 0)],
    "rect": [(2, 0), (0, 3)],
    "tenth": [(0.1, 0), (0, 0.1)],
    "third": [(1 / 3, 0), (0, 1 / 3)],
    "hex60": [(1, 0), (0.5, R3 / 2)],
    "hex120": [(1, 0), (-0.5, R3 / 2)],
    "graphene": [(2.46, 0), (1.23, 2.46 * R3 / 2)],
    "oblique": [(2, 0), (1, 1)],
    "sheared": [(1, 0), (2, 1)],
    "rotated": [(0.6, 0.8), (-0.8, 0.6)],
    "left": [(0, 2), (1, 0.3)],
    "negative": [(-1, 0), (0, -1.5)],
    "needle": [(1, 0), (3.7, 0.3)],
    "cubic": [(1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "swapped3": [(0, 1, 0), (1, 0, 0), (0, 0, 1)],
    "ortho": [(1, 0, 0), (0, 2, 0), (0, 0, 1.5)],
    "fcc": [(0, 1.8, 1.8), (1.8, 0, 1.8), (1.8, 1.8, 0)],
    "bcc": [(-1.435, 1.435, 1.435), (1.435, -1.435, 1.435), (1.435, 1.435, -1.435)],
    "hex3": [(3.239, 0, 0), (-1.6196157, 2.80525669, 0), (0, 0, 5.17222)],
    "triclinic": [(3.1, 0, 0), (0.7, 4.2, 0), (0.3, 0.9, 5.5)],
    "sheared3": [(1, 0, 0), (1, 1, 0), (1, 1, 1)],
    "needle3": [(1, 0, 0), (1.9, 0.5, 0), (-1.4, 0.8, 0.7)],
    "hyper": [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 2, 0), (0.5, 0, 0, 1)],
}

DIM = {k: len(v) for k, v in LATTICES.items()}


def names(dim=None):
    return [k for k in LATTICES if dim is None or DIM[k] == dim]


def patterns(dim):
    """All the ways of choosing the periodic axes, the fully periodic one first."""
    return sorted(itertools.product((True, False), repeat=dim), key=lambda p: -sum(p))


def cart(frac, vecs):
    """sum of frac[i] * vecs[i]"""
    d = len(vecs[0])
    return tuple(
        math.fsum(f * v[k] for f, v in zip(frac, vecs)) for k in range(d)
    )


def frac(point, vecs):
    return tuple(np.linalg.solve(np.array(vecs, float).T, np.array(point, float)))


def scaled(vecs, cells):
    return [tuple(n * x for x in v) for n, v in zip(cells, vecs)]


_image_cache = {}

# how many cells apart the points are which are given to distance()
FAR = 2.5


def image_shifts(vecs, periodic):
    """The lattice vectors which lead from a cell to all of its periodic images nearby."""
    key = (repr(vecs), tuple(periodic))
    if key not in _image_cache:
        m = np.array(vecs, float)
        across = max(
            np.linalg.norm(np.array(signs) @ m)
            for signs in itertools.product((-1, 1), repeat=len(vecs))
        )
        # points up to FAR cells apart have an image at most half of the diagonal away
        per_axis = np.ceil(
            FAR + (FAR + 0.5) * across * np.linalg.norm(np.linalg.inv(m), axis=0) / 2
        ).astype(int)
        while np.prod(2 * per_axis + 1) > 60000:
            per_axis = np.maximum(per_axis - 1, 3)
        ranges = [
            range(-n, n + 1) if p else (0,) for p, n in zip(periodic, per_axis.tolist())
        ]
        _image_cache[key] = np.array(list(itertools.product(*ranges))) @ m
    return _image_cache[key]


def distance(a, b, vecs, periodic):
    """The smallest distance between the periodic images of two points (which are not
    further apart than a few cells)."""
    diff = np.array(a, float) - np.array(b, float)
    return float(
        np.sqrt(((image_shifts(vecs, periodic) + diff) ** 2).sum(axis=1).min())
    )


def same_point(a, b, vecs, periodic, tol=1e-6):
    f = np.array(frac(np.array(a, float) - np.array(b, float), vecs))
    f = f - np.where(np.array(periodic, bool), np.round(f), 0)
    return bool(np.abs(np.array(cart(f, vecs))).max() < tol)


def find(point, sites, vecs, periodic, tol=0.0015):
    """The keys in `sites` (key -> location) of those at this point."""
    keys = list(sites)
    if not keys:
        return []
    m = np.array(vecs, float)
    diff = np.array([sites[k] for k in keys], float) - np.array(point, float)
    cells = np.round(diff @ np.linalg.inv(m)) * np.array(periodic, bool)
    off = np.abs(diff - cells @ m).max(axis=1)
    return [k for k, o in zip(keys, off) if o < tol]


def tile(vecs, cells, motif, is_frac):
    """[(class, position)] of the sites of a structure of cells x motif."""
    out = []
    for n in itertools.product(*(range(c) for c in cells)):
        for cls, points in motif.items():
            for p in points:
                if is_frac:
                    pos = cart([a + b for a, b in zip(n, p)], vecs)
                else:
                    pos = tuple(a + b for a, b in zip(cart(n, vecs), p))
                out.append((cls, pos))
    return out
