"""Supercell lists: one member per class of superlattices, every class reached."""
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent, sublattice_orbits, all_hnfs, hnf_matrix
from vlib import lattices
from vlib.run import scratch, enum, write_lattice, read_polya, quiet


def judge(m, parent, n, got, tag):
    """got: list of 6-tuples"""
    orbits = sublattice_orbits(parent, n)
    index = {}
    for i, o in enumerate(orbits):
        for h in o:
            index[h] = i
    seen = {}
    for h in got:
        a, b, c, d, e, f = h
        m.event("cells-observed")
        if not (a > 0 and c > 0 and f > 0 and 0 <= b < c and 0 <= d < f and 0 <= e < f and a * c * f == n):
            m.violate("not-hnf", "%s: %s is not a lower triangular cell of volume %d" % (tag, h, n))
            continue
        i = index[h]
        if i in seen:
            m.violate("equivalent-cells", "%s volume %d: %s and %s are related by a rotation of the crystal" % (tag, n, seen[i], h))
        seen[i] = h
    miss = [min(o) for i, o in enumerate(orbits) if i not in seen]
    if miss:
        m.violate("missing-cells", "%s volume %d: no cell of %d of %d classes, e.g. %s" % (tag, n, len(miss), len(orbits), miss[0]))
    m.event("classes", len(orbits))
    m.case((tag, n, parent.name), nontrivial=n > 1)
    return len(orbits)


def api(m, lat, ns):
    get_HNFs = resolve("phenum.HNFs:get_HNFs")
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    for n in ns:
        with quiet():
            hs = get_HNFs(n, [list(v) for v in A], [list(v) for v in B], 3)
        k = judge(m, p, n, [(int(h[0][0]), int(h[1][0]), int(h[1][1]), int(h[2][0]), int(h[2][1]), int(h[2][2])) for h in hs], "list")
        for h in hs:
            m.check(h[0][1] == 0 and h[0][2] == 0 and h[1][2] == 0, "not-hnf", "%s is not lower triangular" % (h,))
    m.sample(dict(lattice=lat, volume=ns[-1], classes=k))


def tables(m, lat, sizes):
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    with scratch():
        write_lattice("lattice.in", A, B, sizes, 1)
        enum(polya=True)
        for n in range(sizes[0], sizes[1] + 1):
            concs, rows, last = read_polya("polya.out.%d" % n)
            judge(m, p, n, [r[0] for r in rows], "table")


def candidates(m, n):
    f = resolve("phenum.HNFs:find_all_HNFs")
    got = [(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], h[2][2]) for h in f(n)]
    m.check(len(got) == len(set(got)), "repeated-candidate", "volume %d: a candidate is listed twice" % n)
    m.check(set(got) == set(all_hnfs(n)), "candidates", "volume %d: %d candidates, %d sublattices" % (n, len(set(got)), len(all_hnfs(n))))
    m.event("candidates", len(got))
    m.case(("all", n), n > 1)


def tasks(tier, rng):
    T = []
    top = 7 if tier == "quick" else 12
    for lat in lattices.LIB:
        T.append(dict(fn="api", args=dict(lat=lat, ns=list(range(1, top + 1)))))
    for lat in lattices.TYPED:
        T.append(dict(fn="api", args=dict(lat=lat, ns=list(range(1, top + 1)))))
    for lat in ["fcc", "hex", "hcp", "tri", "gen2", "out2", "ch3"] + rng.sample(lattices.TYPED, 3):
        T.append(dict(fn="tables", args=dict(lat=lat, sizes=[1, 5])))
    for lat, n in [("fcc", 12), ("bcc", 10), ("sc", 9), ("hex", 9), ("tet", 8), ("tri", 8), ("dia", 10)]:
        T.append(dict(fn="api", args=dict(lat=lat, ns=[n]), optional=True))
    # larger volumes, cheap because either the lattice is symmetric or the volume has few divisors
    for lat, ns in [("fcc", [13, 17]), ("bcc", [14]), ("sc", [13]), ("hex", [13]), ("tet", [14]), ("orth", [13]), ("tri", [13]),
                    ("mono", [13]), ("rhom", [13]), ("dia", [13]), ("hcp", [13]), ("ch3", [13]), ("fcc4", [13]), ("gen2", [13])]:
        T.append(dict(fn="api", args=dict(lat=lat, ns=ns)))
    T += [dict(fn="candidates", args=dict(n=n)) for n in (1, 2, 4, 6, 8, 9, 12, 16, 24, 30, 36, 49)]
    for i in range(20 if tier == "quick" else 300):
        lat = lattices.random_parent(rng)
        T.append(dict(fn="api", args=dict(lat=lat, ns=[rng.randint(2, 4), rng.randint(5, 8 if tier == "quick" else 12)]), optional=i > 8))
    if tier == "thorough":
        for lat in ("fcc", "bcc", "sc", "hex", "tet", "hcp", "rhom"):
            for n in (16, 18, 20, 24):
                T.append(dict(fn="api", args=dict(lat=lat, ns=[n]), optional=True, cpu=900))
    return T


main("C03", dict(api=api, tables=tables, candidates=candidates), tasks,
     "a case is the list of one lattice and volume; non-trivial when the volume exceeds one; distinct by lattice and volume")
