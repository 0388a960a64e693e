"""Random setups place what was asked for, for every outcome of the random choices, and can
place it anywhere."""

import itertools
from fractions import Fraction

from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import DiscreteGridSetup

from .. import explore as ex
from .c17 import away, where

BOUNDS = (
    "all outcomes of the first draws (1-3; one per nucleus where all placements are "
    "compared; at most 1 where there is no room) on grids of 1-6 cells per axis (1-3 in 3 dimensions), for 0-5 nuclei, "
    "buffers None, 0, 1, 2, 3; ratios of 2-5 phases with up to 40 nuclei; all outcomes of "
    "noise on up to 6 cells, and of 1-2 particles on up to 3x3 cells; 24 fixed sequences of draws "
    "for 12-60 nuclei on up to 30x30 and 8x8x8 cells"
)
ASSUMPTIONS = [
    "random draws are made with the random module or numpy.random",
    "giving up (RuntimeError) is allowed if nuclei that were placed can leave no room for "
    "the rest",
]


def cases(tier):
    out = []
    for dim in (2, 3):
        for size in range(1, 7 if dim == 2 else 4):
            for n in range(0, 6):
                for buffer in (None, 0, 1, 2, 3):
                    out.append({"kind": "nuclei", "dim": dim, "size": size, "n": n,
                                "buffer": buffer})
    for dim, size, n, buffers in ((2, 15, 30, (None, 0, 1)), (2, 20, 12, (None, 1, 2)),
                                  (3, 8, 25, (None, 1)), (2, 12, 60, (None,)),
                                  (2, 30, 11, (3, 4))):
        for buffer in buffers:
            out.append({"kind": "large", "dim": dim, "size": size, "n": n, "buffer": buffer})
    for k in range(len(RATIOS)):
        out.append({"kind": "ratios", "ratios": k})
    for dim, size in ((2, 1), (2, 2), (3, 1)):
        for n in (1, 2, 3):
            out.append({"kind": "noise", "dim": dim, "size": size, "n": n})
    for dim, size in ((2, 2), (2, 3), (2, 4), (3, 2)):
        for n in (0, 1, 2):
            for radius in (0.5, 1, 1.2, 1.6):
                if size ** (dim * n) > (100 if tier == "quick" else 300):
                    continue
                out.append({"kind": "particles", "dim": dim, "size": size, "n": n,
                            "radius": radius})
    return out


RATIOS = [
    {"A": 1}, {"A": 1, "B": 1}, {"A": 1, "B": 2}, {"A": 0.6, "B": 0.3, "C": 0.1},
    {"A": 0.1, "B": 0.2, "C": 0.7}, {"A": 1, "B": 1, "C": 1}, {"A": 0.91, "B": 0.01,
     "C": 0.01, "D": 0.01, "E": 0.06}, {"A": 10, "B": 1, "C": 1, "D": 1}, {"A": 3, "B": 5},
    {"A": 1, "B": 0}, {"A": 0.15, "B": 0.35, "C": 0.5}, {"A": 1, "B": 99},
]


def run(case, ctx):
    {"nuclei": _nuclei, "ratios": _ratios, "large": _large, "noise": _noise, "particles": _particles}[
        case["kind"]](case, ctx)


def phases_at(sim):
    return {at: sim.state.get_site_state(s)[DISCRETE_OCCUPANCY]
            for s, at in where(sim.structure).items()}


def between(a, b, size):
    """Chebyshev distance on the torus."""
    return max(min((x - y) % size, (y - x) % size) for x, y in zip(a, b))


def packings(places, n, apart, size):
    """All the sets of n places which are apart enough, and whether a smaller set can leave
    no room for more."""
    conflict = {
        p: {q for q in places if q != p and between(p, q, size) <= apart} for p in places
    }
    level = {frozenset()}
    stuck = False
    for _ in range(n):
        new = set()
        for s in level:
            free = [p for p in places if p not in s and not (conflict[p] & s)]
            if not free:
                stuck = True
            new.update(s | {p} for p in free)
            if len(new) > 3000:
                return None, None
        level = new
    return level, stuck


def _nuclei(case, ctx):
    dim, size, n, buffer = case["dim"], case["size"], case["n"], case["buffer"]
    places = list(itertools.product(range(size), repeat=dim))
    apart = buffer or 0
    small = len(places) <= 9
    valid, stuck = packings(places, n, apart, size)
    known = valid is not None
    for ratios in ({"A": 1}, {"A": 1, "B": 1}) if n else ({"A": 1},):
        seen = set()
        full = small and n in (1, 2, 3) and (n < 3 or ctx.tier == "thorough" or size < 3)

        def setup(_, ratios=ratios):
            maker = DiscreteGridSetup(PhaseSet(["bg", "A", "B"]), dim=dim)
            try:
                return maker.setup_random_sites(
                    size, num_sites_desired=n, background_spec="bg", nuc_amts=dict(ratios),
                    **({} if buffer == 2 else {"buffer": buffer}))
            except RuntimeError as e:
                return e

        def check(sim, chooser, ratios=ratios, seen=seen):
            if isinstance(sim, RuntimeError):
                if known:
                    ctx.check(stuck, "gave up although there always is room")
                else:
                    ctx.check(n > 1 and apart > 0, "gave up although there always is room")
                ctx.count("gave_up")
            else:
                got = phases_at(sim)
                ctx.equal(sorted(got), sorted(places), "not the grid that was asked for")
                nuclei = {at: p for at, p in got.items() if p != "bg"}
                ctx.equal(len(nuclei), n, "wrong number of nuclei")
                for a, b in itertools.combinations(nuclei, 2):
                    ctx.check(between(a, b, size) > apart,
                              "nuclei within the buffer of each other", nuclei=nuclei)
                counted(ctx, nuclei, ratios, n)
                seen.add(frozenset(nuclei))
                ctx.outcome((dim, size, tuple(sorted(nuclei.items()))))
            ctx.step()
            ctx.trace()

        depth = n if full else 1 if n < 2 or len(places) > 16 else 2
        if known and not valid:
            depth = 1 if small else 0
        ex.explore(setup, check, depth=depth, ctx=ctx)
        if known and not valid:
            ctx.check(not seen, "more nuclei than there is room for")
        if full and valid:
            ctx.check(seen == valid, "some placements are never chosen",
                      missing=[sorted(s) for s in list(valid - seen)[:3]])
        elif n == 1:
            ctx.check({p for s in seen for p in s} == set(places),
                      "some sites are never chosen")
        ctx.state((dim, size, n, buffer, tuple(ratios)))
    ctx.sample({"placements": len(valid) if known else None})


def counted(ctx, nuclei, ratios, n):
    total = sum(Fraction(str(a)) for a in ratios.values())
    for p, amount in ratios.items():
        got = sum(q == p for q in nuclei.values())
        ideal = Fraction(str(amount)) / total * n
        ctx.check(abs(got - ideal) < 1, "not in the desired ratio", phase=p, got=got,
                  ideal=float(ideal))
    ctx.check(set(nuclei.values()) <= set(ratios), "another phase")


def _large(case, ctx):
    """Many nuclei on large grids, for fixed draws."""
    dim, size, n, buffer = case["dim"], case["size"], case["n"], case["buffer"]
    places = sorted(itertools.product(range(size), repeat=dim))
    placed = 0
    draws = list(itertools.product((0, 7, 100), (1, 31, 77, 1001), (0, 3)))
    for k, draw in enumerate(draws):
        ratios = RATIOS[k % len(RATIOS)]
        ctx.at(draws=draw, ratios=ratios)
        try:
            sim = ex.run_with(
                ex.Spread(*draw),
                lambda _, ratios=ratios: DiscreteGridSetup(
                    PhaseSet(["bg", *ratios]), dim=dim).setup_random_sites(
                        size, num_sites_desired=n, background_spec="bg",
                        nuc_amts=dict(ratios), buffer=buffer))
        except RuntimeError:
            ctx.check(buffer, "gave up although there always is room")
            ctx.count("gave_up")
            continue
        got = phases_at(sim)
        ctx.equal(sorted(got), places, "not the grid that was asked for")
        nuclei = {at: p for at, p in got.items() if p != "bg"}
        ctx.equal(len(nuclei), n, "wrong number of nuclei")
        for a, b in itertools.combinations(nuclei, 2):
            ctx.check(between(a, b, size) > (buffer or 0),
                      "nuclei within the buffer of each other", nuclei=(a, b))
        counted(ctx, nuclei, ratios, n)
        placed += 1
        ctx.state((dim, size, n, buffer, draw))
        ctx.step()
        ctx.trace()
    ctx.count("placed", placed)
    ctx.check(placed, "always gave up")


def _ratios(case, ctx):
    ratios = RATIOS[case["ratios"]]
    for n in list(range(0, 41)) + [10.0, 7.4, 60]:
        for order in (list(ratios), list(ratios)[::-1]):
            given = {p: ratios[p] for p in order}
            ctx.at(n=n, ratios=given)
            sim = ex.run_with(
                ex.Chooser((), depth=0),
                lambda _: DiscreteGridSetup(PhaseSet(["bg", *given])).setup_random_sites(
                    8, num_sites_desired=n, background_spec="bg", nuc_amts=dict(given),
                    buffer=None))
            nuclei = {at: p for at, p in phases_at(sim).items() if p != "bg"}
            ctx.equal(len(nuclei), round(n), "wrong number of nuclei")
            counted(ctx, nuclei, given, round(n))
            ctx.state((case["ratios"], n, tuple(order)))
            ctx.step()
            ctx.trace()


def _noise(case, ctx):
    dim, size, n = case["dim"], case["size"], case["n"]
    phases = list("ABC"[:n])
    places = list(itertools.product(range(size), repeat=dim))
    seen = set()

    def check(sim, _):
        got = phases_at(sim)
        ctx.equal(sorted(got), places, "not the grid that was asked for")
        ctx.check(set(got.values()) <= set(phases), "another phase", phases=got)
        seen.add(tuple(got[p] for p in places))
        ctx.step()
        ctx.trace()
        ctx.state(tuple(got.items()))

    maker = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    ex.explore(lambda _: maker.setup_noise(size, list(phases)), check, ctx=ctx)
    ctx.equal(seen, set(itertools.product(phases, repeat=len(places))),
              "some states never occur")


def _particles(case, ctx):
    dim, size, n, radius = case["dim"], case["size"], case["n"], case["radius"]
    places = list(itertools.product(range(size), repeat=dim))
    for phases in (["P"], ["P", "Q"]):
        seen = set()

        def check(sim, _, seen=seen):
            got = phases_at(sim)
            ctx.equal(sorted(got), places, "not the grid that was asked for")
            seen.add(tuple(got[p] for p in places))
            ctx.step()
            ctx.trace()

        maker = DiscreteGridSetup(PhaseSet(["bg", *phases]), dim=dim)
        ex.explore(
            lambda _, phases=phases: maker.setup_random_particles(
                size, radius, n, "bg", list(phases)),
            check, ctx=ctx)
        fits = False
        for across in (None, size):
            want = set()
            for spec in itertools.product(itertools.product(places, phases), repeat=n):
                state = dict.fromkeys(places, "bg")
                for center, phase in spec:
                    for p in places:
                        if away(p, center, across) < radius:
                            state[p] = phase
                want.add(tuple(state[p] for p in places))
            fits = fits or want == seen
        ctx.check(fits, "the states that occur are not those with particles at every place",
                  phases=phases, states=len(seen))
        ctx.outcome(frozenset(seen))
        ctx.state((dim, size, n, radius, tuple(phases)))
