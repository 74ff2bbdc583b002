"""Prediction tables: complete, consistent, exact, and equal to what enumeration finds."""
from collections import Counter
from vlib.harness import main
from vlib.geom import Parent, Supercell, burnside, sublattice_orbits, all_hnfs, column_hnf, hnf_matrix
from vlib import lattices, enumcheck
from vlib.run import scratch, enum, write_lattice, read_polya, read_enum_out


def tables(m, lat, sizes, k, concs=None, arrows=None, enumerate_=False):
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    ar = bool(arrows and any(arrows))
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, concs, arrows)
        enum(polya=True)
        tab = {n: read_polya("polya.out.%d" % n) for n in range(sizes[0], sizes[1] + 1)}
        found = None
        if enumerate_:
            enum(enum=True, super=True)
            h, recs = read_enum_out("enum.out")
            found = Counter((r.hnf, tuple(r.lab.count(str(i)) for i in range(k))) for r in recs)
            m.event("structures-observed", len(recs))
    for n, (cs, rows, last) in sorted(tab.items()):
        tag = "size %d: " % n
        N = n * len(B)
        want = [c for c in enumcheck.compositions(N, k) if enumcheck.allowed(c, concs)]
        if sorted(cs) != sorted(want):
            m.violate("columns", "%sthe columns are not the allowed compositions" % tag, got=cs[:10], want=want[:10])
            continue
        coltot = [0] * len(cs)
        orbits = sublattice_orbits(p, n)
        index = {h: i for i, o in enumerate(orbits) for h in o}
        seen = set()
        for hnf, counts, total in rows:
            m.event("rows")
            if hnf not in index:
                m.violate("row-cell", "%s%s is not a cell of that size" % (tag, hnf))
                continue
            m.check(index[hnf] not in seen, "row-repeated", "%srow %s repeats an equivalent cell" % (tag, hnf))
            seen.add(index[hnf])
            if len(counts) != len(cs) or sum(counts) != total:
                m.violate("row-total", "%srow %s: total %s is not the sum of its entries" % (tag, hnf, total))
                continue
            sc = Supercell(p, hnf)
            grp = sc.group(ar)
            for i, (c, got) in enumerate(zip(cs, counts)):
                coltot[i] += got
                ac = enumcheck.arrow_counts(c, arrows) or [0] * k
                full, flag = [], []
                for x, a in zip(c, ac):
                    full += [x - a, a]
                    flag += [False, True]
                ref = burnside(grp, tuple(full), flag)
                m.event("entries")
                m.case((str(lat), hnf, c, str(arrows), k), nontrivial=ref > 1)
                m.check(got == ref, "entry", "%scell %s composition %s: predicted %d, exact %d" % (tag, hnf, c, got, ref))
                if found is not None:
                    f = found.pop((hnf, c), 0)
                    m.check(f == got, "disagreement", "%scell %s composition %s: predicted %d, enumerated %d" % (tag, hnf, c, got, f))
        if len(seen) != len(orbits):
            m.violate("row-missing", "%s%d of %d inequivalent cells have no row" % (tag, len(orbits) - len(seen), len(orbits)))
        m.check(last[1] == coltot or tuple(last[1]) == tuple(coltot), "column-total", "%scolumn totals are wrong" % tag, got=last[1], want=coltot)
        m.check(last[2] == sum(coltot), "grand-total", "%sgrand total %s, sum %s" % (tag, last[2], sum(coltot)))
    if found:
        m.violate("disagreement", "structures were enumerated for cells or compositions that are not in the tables: %s" % sorted(found)[:3])
    m.sample(dict(lattice=lat, sizes=sizes, species=k, concs=concs, displaced=arrows, enumerated=enumerate_, total=last[2]))


def tasks(tier, rng):
    T = []

    def add(lat, sizes, k, concs=None, arrows=None, e=False, optional=False):
        T.append(dict(fn="tables", args=dict(lat=lat, sizes=sizes, k=k, concs=concs, arrows=arrows, enumerate_=e), optional=optional))
    for lat in list(lattices.LIB) + lattices.TYPED:
        A, B = lattices.get(lat)
        nD = len(B)
        top = {1: 5, 2: 3 if tier != "quick" else 2, 3: 2}.get(nD, 1)
        add(lat, [1, top], 2, e=True)
        add(lat, [1, max(1, top - 1)], 3, e=True)
        if Parent(A, B).axes_permuting():
            add(lat, [1, max(1, top - 2)], 2, [[0, 1, 1]] * 2, [0.5, 1.0], e=True)
    add("fcc", [6, 9], 2)
    add("sc", [4, 6], 3, [[1, 2, 4], [0, 1, 3], [1, 1, 2]])
    add("dia", [3, 6], 2)
    add("fcc", [4, 6], 4, [[1, 1, 4], [0, 1, 2], [1, 2, 6], [0, 1, 5]])
    add("fcc", [1, 3], 6, e=True)
    add("hex", [1, 2], 8, e=True)
    for i in range(24 if tier == "quick" else 500):
        lat = lattices.random_parent(rng)
        nD = len(lat[1])
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.randint(1, {1: 5, 2: 3}.get(nD, 2) + (1 if tier != "quick" else 0))
        concs = arrows = None
        if rng.random() < .5:
            concs = []
            for _ in range(k):
                den = rng.choice([2, 3, 4, 5, 6, 8])
                x = [rng.randint(0, den), rng.randint(0, den)]
                concs.append(x + [den])
        if rng.random() < .4 and Parent(*lat).axes_permuting():
            arrows = [rng.choice([0, .25, .5, .75, 1.]) for _ in range(k)]
            concs = concs or [[0, 1, 1]] * k
        w = enumcheck.work(n * nD, k, concs, arrows) * len(all_hnfs(n))
        add(lat, [rng.randint(1, n), n], k, concs, arrows, e=w < (15000 if tier == "quick" else 400000), optional=i > 8)
    return T


main("C07", dict(tables=tables), tasks,
     "a case is one table entry (cell and composition); non-trivial when more than one structure is predicted; distinct by lattice, cell, composition and displacement")
