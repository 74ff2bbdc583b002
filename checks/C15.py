"""End to end: the set of crystal files is complete and free of duplicates."""
import glob, os, re
import numpy as np
from vlib.harness import main
from vlib.geom import Parent, Supercell, Actor, sublattice_orbits, column_hnf, hnf_matrix, all_hnfs
from vlib import lattices
from vlib.enumcheck import expected_for
from vlib.crystal import read_poscar, locate, lattice_of
from vlib.run import scratch, enum, makestr, write_lattice


def run(m, lat, sizes, k, mink, sup, scale_species):
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    tag = "%s sizes %s k=%d %s" % (lat, sizes, k, "superperiodic" if sup else "primitive")
    rep = {}
    orbits = []
    for n in range(sizes[0], sizes[1] + 1):
        for o in sublattice_orbits(p, n):
            orbits.append(o)
            for h in o:
                rep[h] = min(o)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k)
        enum(enum=True, super=sup)
        makestr(structures=["all"], input="enum.out", mink=mink, species=["Al", "Ni", "Cu", "Pt"][:k] if scale_species else None)
        names = sorted(glob.glob("vasp.*"), key=lambda f: int(f.split(".")[-1]))
        cr = [(f, read_poscar(f)) for f in names]
    acts, got = {}, {}
    for f, c in cr:
        m.event("files-observed")
        h = lattice_of(p, c.A)
        if h is None:
            m.violate("lattice", "%s: the cell of %s is not a superlattice of the parent" % (tag, f), vectors=c.A.tolist())
            return
        if h not in rep:
            m.violate("foreign-size", "%s: %s has a cell of a size that was not requested" % (tag, f))
            return
        sc = Supercell(p, h)
        if len(c.counts) != k or sum(c.counts) != sc.N or len(c.x) != sc.N:
            m.violate("atoms", "%s: %s has %s atoms for %d sites" % (tag, f, c.counts, sc.N))
            return
        idx = locate(sc, c.x @ c.A)
        if (idx < 0).any() or len(set(idx.tolist())) != sc.N:
            m.violate("positions", "%s: the atoms of %s do not fill the sites" % (tag, f), positions=c.x.tolist())
            return
        col = np.empty(sc.N, dtype=np.uint8)
        col[idx] = [i for i in range(k) for _ in range(c.counts[i])]
        r = rep[h]
        if r not in acts:
            acts[r] = Actor(Supercell(p, r), False)
        # carry the crystal over to the reference cell of its class
        for W, t, perm, shift in p.space_group():
            if column_hnf(W @ sc.H) == r:
                break
        rc = acts[r].sc
        new = np.empty(sc.N, dtype=np.uint8)
        for iD in range(p.nD):
            cs = rc.coset(sc.Z @ W.T + shift[iD])
            new[perm[iD] * sc.n + cs] = col[iD * sc.n:(iD + 1) * sc.n] * 7
        key = (r, acts[r].canon(new[None, :])[0])
        if key in got:
            m.violate("duplicate", "%s: %s and %s are the same crystal" % (tag, got[key], f))
        got.setdefault(key, f)
    nexp = 0
    for o in orbits:
        r = min(o)
        if r not in acts:
            acts[r] = Actor(Supercell(p, r), False)
        exp = expected_for(acts[r].sc, acts[r], k, None, None, sup)
        E = set().union(*exp.values()) if exp else set()
        nexp += len(E)
        G = set(x for h, x in got if h == r)
        m.event("crystals-expected", len(E))
        m.case((tag, r, mink), nontrivial=len(E) > 0)
        if E - G:
            m.violate("missing", "%s: %d of %d crystals of the cell %s are not among the files" % (tag, len(E - G), len(E), r),
                      example=(np.frombuffer(min(E - G), dtype=np.uint8) // 7).tolist())
        if G - E:
            f = [got[(r, x)] for x in G - E]
            m.violate("unexpected", "%s: %s is a repetition of a smaller cell" % (tag, f[:3]))
    m.sample(dict(case=tag, files=len(cr), expected=nexp, mink=mink))


def listed(m, lat, n, pairs, mink):
    """large supercells of a crystal without symmetry, each asked for once: every one has its own file"""
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    hs = [tuple(h) for g in pairs for h in g]
    N = n * len(B)
    with scratch():
        write_lattice("lattice.in", A, B, [n, n], 2)
        with open("enum.in", "w") as f:
            f.write("# cells\n" + "".join("%s  %d 1  %d\n" % (" ".join(map(str, h)), N - 1, len(B)) for h in hs))
        enum(enum=True)
        makestr(structures=["all"], input="enum.out", mink=mink)
        cr = [(f, read_poscar(f)) for f in sorted(glob.glob("vasp.*"))]
    got = {}
    for f, c in cr:
        m.event("files-observed")
        got.setdefault(lattice_of(p, c.A), []).append(f)
    # without symmetry every sublattice is a class of its own; the inversion keeps each of them
    for h in hs:
        fs = got.pop(h, [])
        want = expected_for(Supercell(p, h), Actor(Supercell(p, h), False), 2, [[N - 1, N - 1, N], [1, 1, N]], None, False)
        want = len(want.get((N - 1, 1), ()))
        m.event("crystals-expected", want)
        m.case((str(lat), h, mink), nontrivial=True)
        m.check(len(fs) == want, "listed", "%s: %d files for the %d crystals of the cell %s" % (lat, len(fs), want, h), files=fs, cells=hs)
    m.check(not got, "listed-foreign", "%s: files with cells that were not listed" % str(lat), files=list(got.values())[:4])


def alike(rng, n, count):
    """supercells whose entries read the same when they are put together or sorted, and some others"""
    by = {}
    for h in all_hnfs(n):
        by.setdefault("".join(map(str, h)), []).append(h)
        by.setdefault(("s",) + tuple(sorted(h)), []).append(h)
    g1 = [g for x, g in by.items() if isinstance(x, str) and len(g) > 1]
    g2 = [g[:3] for x, g in by.items() if not isinstance(x, str) and len(g) > 1]
    out = rng.sample(g1, min(len(g1), count)) + rng.sample(g2, min(len(g2), count))
    seen, res = set(), []
    for g in out:
        g = [h for h in g if h not in seen]
        seen.update(g)
        if g:
            res.append(g)
    return res


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    top = {"fcc": 5, "fcc2": 4, "bcc": 5, "sc": 5, "hex": 5, "hcp": 3, "dia": 3, "dias": 3, "hcps": 3, "sc2": 3, "tet2": 3, "honey": 3, "out2": 3, "gen2": 3}
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        t = top.get(lat, {1: 4, 2: 2, 3: 2, 4: 1, 5: 1}[nD])
        sup = rng.random() < .3
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, t - 1 if sup and t > 2 else t], k=2, mink=rng.choice(["t", "t", "f"]), sup=sup, scale_species=rng.random() < .5)))
        if nD == 1 and (big or rng.random() < .3):
            T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 3], k=3, mink="t", sup=False, scale_species=False)))
        if big:
            T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, t], k=2, mink="f", sup=True, scale_species=True), optional=True))
    for lat in lattices.TYPED + lattices.EDGE:
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, {1: 4, 2: 3}.get(len(lat[1]), 2)], k=2, mink="t", sup=False, scale_species=False)))
    for i in range(24 if not big else 500):
        lat = lattices.random_parent(rng)
        nD = len(lat[1])
        k = rng.choice([2, 2, 3])
        t = {(1, 2): 4, (1, 3): 3, (2, 2): 2, (2, 3): 1, (3, 2): 2, (3, 3): 1}[(nD, k)]
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, t], k=k, mink=rng.choice(["t", "f"]), sup=rng.random() < .3, scale_species=False), optional=i > 8))
    for i in range(4 if not big else 40):
        n = rng.choice([11, 12, 12, 14, 15])
        T.append(dict(fn="listed", args=dict(lat="tri", n=n, pairs=alike(rng, n, 5), mink=rng.choice(["t", "f"])), optional=i > 1))
    return T


main("C15", dict(run=run, listed=listed), tasks,
     "a case is one class of supercells; non-trivial when crystals exist; distinct by crystal, class, species and reduction")
