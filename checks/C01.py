"""Enumeration of colourings: exactly one representative per symmetry class."""
from vlib.harness import main
from vlib.geom import Parent, all_hnfs
from vlib import lattices, enumcheck
from vlib.run import scratch, enum, write_lattice, read_enum_out


def full(m, lat, sizes, k, concs=None, sup=False):
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, concs)
        enum(enum=True, super=sup)
        h, recs = read_enum_out("enum.out")
    p = Parent(h["A"], h["basis"], str(lat))
    # the header describes the same crystal as the input
    p0 = Parent(A, B)
    import numpy as np
    m.check(np.abs(p.A - p0.A).max() < 1e-6, "header-lattice", "the recorded parent lattice is not the one given")
    m.check(p.nD == p0.nD and all(any(np.abs((x - y) - np.round(x - y)).max() < 1e-5 for y in p0.d) for x in p.d),
            "header-basis", "the recorded basis is not the given one modulo the lattice", got=h["basis"], given=B)
    n = enumcheck.compare_full(m, recs, p, sizes, k, concs, None, sup)
    m.sample(dict(lattice=lat, sizes=sizes, species=k, concs=concs, superperiodic=sup, structures=len(recs), expected=n))


def tasks(tier, rng):
    T = []

    def add(lat, sizes, k, concs=None, sup=False, optional=False):
        T.append(dict(fn="full", args=dict(lat=lat, sizes=sizes, k=k, concs=concs, sup=sup), optional=optional))
    for lat, hi in [("fcc", 5), ("fcc2", 4), ("bcc", 5), ("sc", 5), ("tet", 4), ("orth", 4), ("bct", 4), ("fco", 4),
                    ("hex", 5), ("hex2", 4), ("mono", 4), ("tri", 4), ("rhom", 4), ("hcp", 3), ("hcps", 3), ("dia", 3),
                    ("dias", 3), ("sc2", 3), ("tet2", 3), ("scO", 2), ("perov", 1), ("gen2", 3), ("gen3", 2), ("tet3", 2),
                    ("near", 5), ("ndia", 3), ("ch3", 2), ("out2", 3), ("C4", 2), ("S41", 2), ("honey", 3), ("kag", 2), ("alpha", 2)]:
        for sup in (False, True):
            add(lat, [1, hi], 2, sup=sup)
    add("fcc", [7, 7], 2)
    add("sc", [6, 6], 2, sup=True)
    add("fcc", [1, 3], 3, sup=True)
    add("fcc", [2, 4], 3)
    add("bcc", [1, 4], 3)
    add("hcp", [1, 2], 3)
    add("dia", [1, 2], 3, sup=True)
    add("tri", [1, 3], 3)
    add("hex", [2, 4], 3)
    add("fcc", [3, 3], 4)
    add("sc2", [1, 2], 4, sup=True)
    add("gen2", [1, 2], 4)
    add("tri", [5, 5], 5, concs=[[1, 1, 5]] * 5)
    add("fcc", [1, 3], 1)
    add("fcc", [1, 3], 6, sup=True)
    add("bcc", [1, 2], 9)
    add("hcp", [1, 1], 7)
    add("perov", [1, 1], 3)
    add("fcc", [2, 6], 2, concs=[[1, 2, 4], [1, 3, 4]])
    add("bcc", [3, 6], 3, concs=[[1, 2, 3], [0, 1, 2], [1, 2, 6]])
    add("hcp", [2, 4], 2, concs=[[1, 2, 8], [3, 4, 4]])
    add("scO", [2, 3], 2, concs=[[0, 1, 3], [0, 1, 1]])
    add("sc", [7, 7], 2, concs=[[0, 1, 3], [2, 3, 3]])
    # cell sizes with several kinds of translation groups
    add("fcc", [8, 8], 2, concs=[[4, 4, 8], [4, 4, 8]])
    add("sc", [8, 8], 2, concs=[[2, 4, 8], [4, 6, 8]])
    add("fcc", [9, 9], 2, concs=[[3, 3, 9], [6, 6, 9]])
    add("bcc", [9, 9], 2, concs=[[1, 1, 3], [2, 2, 3]])
    add("hex", [8, 8], 2, concs=[[2, 2, 8], [6, 6, 8]])
    add("fcc", [12, 12], 2, concs=[[2, 2, 12], [10, 10, 12]])
    add("tet", [6, 6], 3, concs=[[1, 1, 3]] * 3)
    add("hcp", [4, 4], 2, concs=[[4, 4, 8]] * 2)
    add("dia", [4, 4], 2, concs=[[1, 1, 2]] * 2)
    for lat in lattices.TYPED + lattices.EDGE:
        add(lat, [1, {1: 4, 2: 3}.get(len(lat[1]), 2)], 2)
    nr = 30 if tier == "quick" else 500
    cap = 12000 if tier == "quick" else 120000
    for i in range(nr):
        lat = lattices.random_parent(rng)
        nD = len(lat[1])
        k = rng.choice([2, 2, 2, 3, 3, 4])
        hi = rng.randint(2, 6)
        while hi > 1 and k ** (hi * nD) * len(all_hnfs(hi)) > cap:
            hi -= 1
        lo = rng.randint(1, hi)
        concs = None
        if rng.random() < .3:
            den = rng.choice([2, 3, 4, 6, 8])
            concs = []
            for _ in range(k):
                x = sorted([rng.randint(0, den), rng.randint(0, den)])
                concs.append([x[0], x[1], den])
        add(lat, [lo, hi], k, concs=concs, sup=rng.random() < .5, optional=i >= 8)
    if tier == "thorough":
        for lat, n in [("fcc", 10), ("bcc", 9), ("sc", 8), ("hex", 8), ("tri", 7), ("tet", 8)]:
            add(lat, [n, n], 2, optional=True)
        for lat, n in [("dia", 5), ("hcp", 5), ("sc2", 5), ("dias", 5), ("honey", 4), ("kag", 3), ("scO", 3), ("perov", 2), ("C4", 3), ("S41", 3)]:
            add(lat, [n, n], 2, optional=True)
        for lat, n in [("fcc", 6), ("bcc", 6), ("hex", 5), ("dia", 3), ("hcp", 3)]:
            add(lat, [n, n], 3, sup=True, optional=True)
    return T


main("C01", dict(full=full), tasks,
     "a case is one symmetry class of supercells in one enumeration run; non-trivial when at least one structure "
     "is expected for it; distinct by lattice, cell, species, ranges and mode")
