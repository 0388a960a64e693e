"""Conversion from and to pymatgen keeps lattices, periodicity, positions and species."""

import itertools

import numpy as np
from pymatgen.core.lattice import Lattice as PmgLattice
from pymatgen.core.structure import Structure as PmgStructure

from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import Lattice, PeriodicStructure
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY

from .. import geo
from .c10 import _too_close, match

BOUNDS = (
    "10 three-dimensional lattices, every choice of periodic axes, 6 motifs of 1-6 atoms, and one of 36, of "
    "1-6 species (inside and outside of the cell, on its faces, with oxidation states, of "
    "the same species apart from each other), sizes 1-2 per axis; in both directions and "
    "there and back again"
)
ASSUMPTIONS = ["locations are rounded to 3 decimals", "sites hold one species each"]

MOTIFS = {
    "one": [("Na", (0, 0, 0))],
    "salt": [("Na", (0, 0, 0)), ("Cl", (0.5, 0.5, 0.5))],
    "mixed": [("Fe", (0, 0, 0)), ("O", (0.5, 0.5, 0)), ("Fe", (0.5, 0, 0.5)),
              ("O", (0, 0.5, 0.5))],
    "outside": [("K", (-0.25, 1.25, 0.5)), ("Cl", (0.25, -0.625, 2.375)), ("K", (1, 1, 1))],
    "ions": [("Na+", (0.1, 0.2, 0.3)), ("Cl-", (0.6, 0.7, 0.8)), ("Na+", (1 / 3, 2 / 3, 0.05))],
    "six": [("Ti", (0, 0, 0)), ("Ti", (0.5, 0.5, 0.5)), ("O", (0.305, 0.305, 0)),
            ("O", (0.695, 0.695, 0)), ("O", (0.195, 0.805, 0.5)), ("O", (0.805, 0.195, 0.5))],
}
MOTIFS["lots"] = [
    (["Ba", "Ti4+", "O", "Na", "O2-", "Xe", "O"][i % 7],
     ((i % 4) / 4 + 0.03, (i // 4 % 3) / 3 + 0.07, i // 12 / 3 + 0.01 * (i % 5)))
    for i in range(36)
]
SCALE = 3.0


def cases(tier):
    return [
        {"lattice": name, "periodic": p, "motif": m}
        for name in geo.names(3)
        for p in geo.patterns(3)
        for m in MOTIFS
        if m != "lots" or len(set(p)) == 1
    ]


def run(case, ctx):
    vecs = [tuple(SCALE * x for x in v) for v in geo.LATTICES[case["lattice"]]]
    periodic = tuple(case["periodic"])
    atoms = MOTIFS[case["motif"]]
    conv = PymatgenStructureConverter()
    pmg_lattice = PmgLattice(vecs, pbc=periodic)

    lattice = conv.to_pylattica_lattice(pmg_lattice)
    same_lattice(ctx, lattice, vecs, periodic, "lattice from pymatgen")
    back = conv.to_pymatgen_lattice(lattice)
    same_pmg_lattice(ctx, back, vecs, periodic, "lattice there and back")
    for p in (periodic, list(periodic)) + ((periodic[0],) if len(set(periodic)) == 1 else ()):
        same_pmg_lattice(ctx, conv.to_pymatgen_lattice(Lattice(vecs, p)), vecs, periodic,
                         "lattice to pymatgen")
    ctx.step(3)

    motif = {}
    for species, f in atoms:
        motif.setdefault(species, []).append(f)
    want = [(s, geo.cart(f, vecs)) for s, f in atoms]
    if _too_close(want, vecs, periodic):
        ctx.count("skipped_because_sites_coincide")
        ctx.trace()
        ctx.state((case["lattice"], periodic))
        return
    for order in (atoms, atoms[::-1]):
        for inside in (False, True):
            pmg = PmgStructure(pmg_lattice, [s for s, _ in order], [f for _, f in order],
                               to_unit_cell=inside and all(periodic))
            before = snapshot(pmg)
            ctx.at(atoms=order)
            struct, state = conv.to_pylattica_structure_and_state(pmg)
            same_lattice(ctx, struct.lattice, vecs, periodic, "structure from pymatgen")
            ids = match(ctx, struct, want, vecs, periodic)
            ctx.equal(sorted(state.site_ids()), sorted(ids), "not a state of every site")
            for s in ids:
                ctx.equal(state.get_site_state(s)[DISCRETE_OCCUPANCY], struct.site_class(s),
                          "the state is not the species", site=s)
            builder = conv.to_pylattica_structure_builder(pmg)
            sizes = [1, 2, (2, 1, 1), (1, 1, 3)]
            if case["motif"] == "salt" and all(periodic):
                sizes += [3, (1, 5, 2)]
            for size in sizes[2:] if case["motif"] == "lots" else sizes:
                cells = (size,) * 3 if isinstance(size, int) else size
                many = geo.tile(vecs, cells, motif, True)
                big = geo.scaled(vecs, cells)
                if not _too_close(many, big, periodic):
                    ctx.at(size=size)
                    built = builder.build(size)
                    same_lattice(ctx, built.lattice, big, periodic, "structure that is built")
                    match(ctx, built, many, big, periodic)
                    to_pymatgen(ctx, conv, built, many, big, periodic)
                    ctx.step()
                ctx.state((case["lattice"], periodic, case["motif"], size))
            to_pymatgen(ctx, conv, struct, want, vecs, periodic)
            again, again_state = conv.to_pylattica_structure_and_state(
                conv.to_pymatgen_structure(struct))
            same_lattice(ctx, again.lattice, vecs, periodic, "there and back")
            match(ctx, again, want, vecs, periodic)
            ctx.equal(sorted(again_state.site_ids()), sorted(ids), "states there and back")
            ctx.equal(snapshot(pmg), before, "the structure that is converted was changed")
            ctx.step(3)
            ctx.trace()
    # a structure that is made site by site, in Cartesian coordinates
    struct = PeriodicStructure(Lattice(vecs, periodic))
    for species, at in want:
        struct.add_site(species, at)
    to_pymatgen(ctx, conv, struct, want, vecs, periodic)
    ctx.sample({"atoms": atoms})


def snapshot(pmg):
    return [(s.species_string, tuple(s.frac_coords.tolist())) for s in pmg.sites]


def same_lattice(ctx, lattice, vecs, periodic, what):
    ctx.check(isinstance(lattice, Lattice), f"{what}: not a lattice")
    ctx.check(np.allclose(lattice.vecs, vecs, atol=1e-9), f"{what}: wrong vectors",
              got=lattice.vecs)
    ctx.equal(tuple(bool(p) for p in lattice.periodic), periodic, f"{what}: wrong periodicity")


def same_pmg_lattice(ctx, lattice, vecs, periodic, what):
    ctx.check(isinstance(lattice, PmgLattice), f"{what}: not a pymatgen lattice")
    ctx.check(np.allclose(lattice.matrix, vecs, atol=1e-9), f"{what}: wrong vectors",
              got=lattice.matrix)
    ctx.equal(tuple(bool(p) for p in lattice.pbc), periodic, f"{what}: wrong periodicity")


def to_pymatgen(ctx, conv, struct, want, vecs, periodic):
    pmg = conv.to_pymatgen_structure(struct)
    same_pmg_lattice(ctx, pmg.lattice, vecs, periodic, "structure to pymatgen")
    ctx.equal(len(pmg.sites), len(want), "wrong number of atoms")
    left = list(range(len(want)))
    for site in pmg.sites:
        hits = [i for i in left if want[i][0] == site.species_string
                and geo.same_point(want[i][1], site.coords, vecs, periodic, 0.00051)]
        ctx.check(len(hits) == 1, "an atom that is not there, or twice", atom=str(site))
        left.remove(hits[0])


assert itertools
