"""Enumeration with displaced atoms: exactly one representative per class, right number displaced."""
import numpy as np
from vlib.harness import main
from vlib.geom import Parent, all_hnfs, n_states
from vlib import lattices, enumcheck
from vlib.run import scratch, enum, write_lattice, read_enum_out


def full(m, lat, sizes, k, concs, arrows, sup):
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, concs, arrows)
        enum(enum=True, super=sup)
        h, recs = read_enum_out("enum.out")
    p = Parent(h["A"], h["basis"], str(lat))
    # displaced atoms per species, straight from the record
    for r in recs:
        N = r.size * h["nD"]
        cc = tuple(r.lab.count(str(i)) for i in range(k))
        want = enumcheck.arrow_counts(cc, arrows)
        got = [sum(1 for c, g in zip(r.lab, r.dirs) if c == str(i) and g != "0") for i in range(k)]
        m.event("records")
        if got != want:
            m.violate("displaced-count", "structure %d (%s %s): displaced atoms per species %s, requested %s" % (
                r.num, r.lab, r.dirs, got, want))
    n = enumcheck.compare_full(m, recs, p, sizes, k, concs, arrows, sup)
    m.sample(dict(lattice=lat, sizes=sizes, concs=concs, displaced=arrows, superperiodic=sup, structures=len(recs), expected=n))


FULL = lambda k: [[0, 1, 1]] * k


def cost(A, B, sizes, k, concs, arrows):
    nD = len(B)
    w = 0
    for n in range(sizes[0], sizes[1] + 1):
        w += enumcheck.work(n * nD, k, concs, arrows) * (1 + len(all_hnfs(n)) // 3)
    return w


def tasks(tier, rng):
    T = []

    def add(lat, sizes, k, concs, arrows, sup=False, optional=False):
        T.append(dict(fn="full", args=dict(lat=lat, sizes=sizes, k=k, concs=concs, arrows=arrows, sup=sup), optional=optional))
    for lat in ["sc", "fcc", "fcc2", "bcc", "tet", "orth", "bct", "fco"]:
        add(lat, [1, 3], 1, FULL(1), [1.0])
        add(lat, [1, 2], 2, FULL(2), [0.5, 1.0], sup=True)
        add(lat, [2, 3], 2, FULL(2), [0.0, 0.5])
    for lat in ["sc2", "tet2", "dia", "gen2", "out2", "S41", "C4", "ch3", "alpha"]:
        nD = len(lattices.get(lat)[1])
        add(lat, [1, 2 if nD == 2 else 1], 2, FULL(2), [0.5, 0.3], sup=lat < "d")
        if nD < 4:
            add(lat, [1, 1], 1, FULL(1), [1.0], sup=True)
    add("scO", [1, 1], 3, FULL(3), [1.0, 0.5, 0.0])
    add("perov", [1, 1], 2, [[1, 3, 5], [2, 4, 5]], [0.5, 0.0])
    add("sc", [4, 4], 2, [[1, 1, 4], [3, 3, 4]], [1.0, 0.34])
    add("fcc", [4, 4], 2, [[1, 2, 4], [1, 3, 4]], [0.5, 0.5])
    add("fcc", [4, 4], 1, FULL(1), [0.5], sup=True)
    add("bcc", [4, 4], 1, FULL(1), [1.0])
    add("tri", [2, 4], 1, FULL(1), [0.6])
    add("mono", [2, 4], 1, FULL(1), [0.5])
    add("tet", [3, 3], 3, [[1, 1, 3]] * 3, [1.0, 0.0, 1.0])
    add("tet", [3, 3], 3, [[1, 1, 3]] * 3, [1.0, 1.0, 1.0], sup=True)
    add(lattices.typed(lattices.THIRD), [1, 2], 2, FULL(2), [0.5, 0.3])
    nr = 24 if tier == "quick" else 400
    cap = 25000 if tier == "quick" else 300000
    i = 0
    while i < nr:
        lat = lattices.random_parent(rng, nD=rng.choice([1, 1, 2, 2, 3]), kinds=lattices.AXES)
        if not Parent(*lat).axes_permuting():
            continue
        k = rng.choice([1, 2, 2, 3])
        n = rng.randint(1, 4)
        lo = rng.randint(1, n)
        arrows = [rng.choice([0., .25, .3, .34, .5, .67, .75, 1.]) for _ in range(k)]
        if not any(arrows):
            continue
        concs = FULL(k)
        if rng.random() < .3 and k > 1:
            den = rng.choice([2, 3, 4])
            concs = []
            for _ in range(k):
                x = sorted([rng.randint(0, den), rng.randint(0, den)])
                concs.append([x[0], x[1], den])
        while n >= lo and cost(*lat, [lo, n], k, concs, arrows) > cap:
            n -= 1
        if n < lo:
            continue
        add(lat, [lo, n], k, concs, arrows, sup=rng.random() < .5, optional=i >= 6)
        i += 1
    return T


main("C02", dict(full=full), tasks,
     "a case is one symmetry class of supercells in one displacement enumeration; non-trivial when at least one "
     "structure is expected for it; distinct by lattice, cell, species, ranges, fractions and mode")
