"""No two sites are at the same place, whatever is added to a structure in which order."""

import itertools

import numpy as np

from pylattica.core import Lattice, PeriodicStructure
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID

from .. import geo

BOUNDS = (
    "all sequences of up to 4 additions (3 in 3 dimensions; 1 more in the thorough tier) of 9 "
    "locations - inside and outside of the cell, images of each other, displaced by "
    "floating point noise - of 12 lattices with every choice of periodic axes; after every "
    "addition every location and an image of it is looked up; questions asked after every "
    "choice of the additions before the last; all orders of adding 5 sites which are "
    "0.001-0.03 apart"
)
ASSUMPTIONS = [
    "locations are either at most 1e-7 or at least 0.01 apart, or whole multiples of 0.001 "
    "in square cells"
]

NAMES = ["line.7", "square", "swapped", "rect", "hex60", "third", "graphene", "sheared",
         "left", "cubic", "fcc", "triclinic"]

# site classes can be anything
CLASSES = [("A", "B"), (0, 1), ("", "A"), (False, 2.5), ((0, 1), ())]

# fractional coordinates (by axis, then the noise that is added to the Cartesian location)
POINTS = [
    ((0, 0, 0), 0),
    ((1, 0, 0), 0),
    ((0, -1, 1), 1e-9),
    ((0.5, 0.25, 0.75), 0),
    ((-0.5, 1.25, 0.75), -1e-8),
    ((0.5, 0.25, -0.25), 1e-7),
    ((1 / 3, 2 / 3, 1 / 3), 0),
    ((-2 / 3, 2 / 3, 1 / 3), 1e-9),
    ((1, 1, 1), -1e-9),
]


def cases(tier):
    out = []
    for name in NAMES:
        for periodic in geo.patterns(geo.DIM[name]):
            for first in range(len(POINTS)):
                out.append({"lattice": name, "periodic": periodic, "first": first,
                            "depth": (4 if geo.DIM[name] < 3 else 3) + (tier == "thorough")})
    for dim in (1, 2, 3):
        for unit in (1, 2, 7, 10):
            for first in range(4 if dim == 1 else 5):
                out.append({"kind": "tight", "dim": dim, "unit": unit, "first": first})
    return out


def run(case, ctx):
    if case.get("kind") == "tight":
        return _tight(case, ctx)
    vecs = [tuple(2 * x for x in v) for v in geo.LATTICES[case["lattice"]]]
    periodic = tuple(case["periodic"])
    dim = len(vecs)
    points = []
    for f, noise in POINTS:
        points.append(tuple(x + noise for x in geo.cart(f[:dim], vecs)))
    same = [
        [geo.same_point(a, b, vecs, periodic, 1e-5) for b in points] for a in points
    ]
    images = []
    for k, p in enumerate(points):
        shift = [(1 if k % 2 else -1) if q else 0 for q in periodic]
        images.append(tuple(x + c for x, c in zip(p, geo.cart(shift, vecs))))
    lattice = Lattice(vecs, periodic)
    case = {**case, "classes": CLASSES[(case["first"] + sum(periodic)) % len(CLASSES)]}
    _extend(ctx, case, lattice, points, images, same, [case["first"]])
    ctx.sample({"locations": points})


def _tight(case, ctx):
    """Sites a few thousandths apart, each of which is the closest to what is around it."""
    dim, unit = case["dim"], case["unit"]
    # thousandths, around the corner of the cell
    pool = [(0,) * dim, (unit,) + (0,) * (dim - 1), (-unit,) * dim,
            (unit,) * (dim - 1) + (-2 * unit,), (0,) * (dim - 1) + (3 * unit,)]
    pool = list(dict.fromkeys(pool))
    for periodic in (True, False):
        for rest in itertools.permutations([k for k in range(len(pool)) if k != case["first"]]):
            if case["first"] >= len(pool):
                break
            order = [case["first"], *rest]
            lattice = Lattice([tuple(2.0 * (i == j) for j in range(dim)) for i in range(dim)],
                              periodic)
            struct = PeriodicStructure(lattice)
            for n, k in enumerate(order):
                ctx.at(order=order, unit=unit)
                at = tuple(x / 1000 for x in pool[k])
                ctx.equal(struct.add_site("AB"[n % 2], at), n, "a site is refused")
                for again in (at, tuple(x + 2 for x in at) if periodic else at):
                    try:
                        struct.add_site("A", again)
                    except Exception:
                        continue
                    ctx.fail("a site is added where there is one", location=again)
            ctx.equal(list(struct.site_ids), list(range(len(order))), "wrong site ids")
            for n, k in enumerate(order):
                for off in itertools.product((-0.3, 0, 0.4), repeat=dim):
                    for image in (0, 2 * periodic):
                        at = tuple((x + d) / 1000 + image for x, d in zip(pool[k], off))
                        ctx.equal(struct.id_at(at), n, "a location is not that of the closest",
                                  location=at)
                ctx.step()
            ctx.state((dim, unit, periodic, tuple(order)))
            ctx.trace()


def _extend(ctx, case, lattice, points, images, same, sequence):
    # the structure is asked about its sites after some of the additions before the last:
    # after every choice of them in short sequences, one choice in the longest ones
    n = 2 ** (len(sequence) - 1)
    for asked in range(n) if len(sequence) < 4 else (sum(sequence) % n,):
        _check(ctx, case, lattice, points, images, same, sequence, asked)
    if len(sequence) < case["depth"]:
        for k in range(len(points)):
            _extend(ctx, case, lattice, points, images, same, sequence + [k])


def _ask(struct, points, names):
    struct.all_site_classes()
    struct.sites()
    for cls in names:
        struct.sites(cls)
    for p in points[::3]:
        struct.site_at(p)
        struct.class_at(p)
    for sid in (0, 1, 2):
        struct.get_site(sid)


def _check(ctx, case, lattice, points, images, same, sequence, asked):
    # the last addition of the sequence is the one that is checked here; the ones before
    # were checked when the sequence ended with them
    struct = PeriodicStructure(lattice)
    placed = []  # indices of the points, by id
    names = case["classes"]
    for n, k in enumerate(sequence):
        cls = names[n % 2]
        taken = any(same[k][j] for j in placed)
        before = None
        if n == len(sequence) - 1:
            before = _content(struct)
            ctx.at(sequence=sequence, asked_after=asked)
        try:
            got = struct.add_site(cls, points[k])
        except Exception:
            if not taken:
                raise
            got = None
        if taken:
            ctx.check(got is None, "a site is added where there is one",
                      location=points[k])
            if before is not None:
                ctx.equal(_content(struct), before, "refusing a site changed the structure")
        else:
            ctx.equal(got, len(placed), "wrong id of the new site")
            placed.append(k)
        if n < len(sequence) - 1 and asked >> n & 1:
            _ask(struct, points, names)
    classes = []
    seen = []
    for n, k in enumerate(sequence):
        if not any(same[k][j] for j in seen):
            seen.append(k)
            classes.append(names[n % 2])
    ctx.equal([s[SITE_ID] for s in struct.sites()], list(range(len(placed))), "wrong sites")
    ctx.equal(list(struct.site_ids), list(range(len(placed))), "wrong site ids")
    ctx.equal([s[SITE_CLASS] for s in struct.sites()], classes, "wrong classes")
    ctx.equal(sorted(struct.all_site_classes(), key=repr), sorted(set(classes), key=repr),
              "wrong class list")
    for cls in names:
        ctx.equal([s[SITE_ID] for s in struct.sites(cls)],
                  [i for i, c in enumerate(classes) if c == cls], "wrong sites of a class")
    for i, p in enumerate(points):
        want = next((n for n, j in enumerate(placed) if same[i][j]), None)
        for at in (p, images[i]):
            got = struct.id_at(at)
            if got != want:
                ctx.fail("looking up a location gives the wrong site", location=at,
                         got=got, expected=want, placed=placed)
        site = struct.site_at(p)
        if want is None:
            ctx.check(site is None, "a site where there is none")
            ctx.check(struct.class_at(p) is None, "a class where there is no site")
        else:
            ctx.check(site[SITE_ID] == want and site[SITE_CLASS] == classes[want],
                      "wrong site", site=site)
            ctx.equal(struct.class_at(p), site[SITE_CLASS], "wrong class at a location")
            ctx.equal(struct.site_class(want), site[SITE_CLASS], "wrong class of a site")
            ctx.equal(struct.get_site(want)[SITE_ID], want, "wrong site of an id")
            ctx.check(
                geo.same_point(site[LOCATION], points[placed[want]], lattice.vecs.tolist(),
                               lattice.periodic, 0.00051),
                "a site is not where it was added", site=site)
    ctx.state((case["lattice"], case["periodic"], tuple(placed)))
    ctx.outcome(tuple(placed))
    ctx.step()
    ctx.trace()


def _content(struct):
    return [
        (s[SITE_ID], s[SITE_CLASS], tuple(np.asarray(s[LOCATION]).tolist()))
        for s in struct.sites()
    ] + [tuple(struct.site_ids)]
