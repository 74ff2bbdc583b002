"""A written crystal file is the structure that was enumerated."""
import os, random
import numpy as np
from vlib.harness import main
from vlib.geom import all_hnfs, cells_with, n_states, column_hnf, hnf_matrix, same_lattice
from vlib import lattices
from vlib.enumcheck import arrow_counts
from vlib.crystal import read_poscar, parent_of, cells, superlattice, locate, lattice_of
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out


def requests(reqs):
    with open("enum.in", "w") as f:
        f.write("# requests\n")
        for h, c, n in reqs:
            f.write(" ".join(map(str, h)) + " " + " ".join(map(str, c)) + " %d\n" % n)


def judge(m, p, rec, path, k, mink, removed, tag):
    d = dict(case=tag, record=rec.line, mink=mink)
    sc, col, dr = cells(p, rec)
    try:
        c = read_poscar(path)
    except (ValueError, IndexError) as e:
        m.violate("unreadable", "structure %d: not a crystal file: %s" % (rec.num, e), **d)
        return
    m.event("files-observed")
    h = lattice_of(p, c.A)
    if h != sc.h:
        m.violate("superlattice", "structure %d: the file has another superlattice than the record" % rec.num, vectors=c.A.tolist(), **d)
        return
    if mink != "f":
        m.check(np.linalg.det(c.A) > 0, "volume", "structure %d: the volume is not positive" % rec.num, **d)
    cnt = [int((col == i).sum()) for i in range(k)]
    exp = [x for x in cnt if x] if removed else cnt
    if not m.check(c.counts == exp, "counts", "structure %d: numbers of atoms %s, the structure has %s" % (rec.num, c.counts, exp), **d):
        return
    if not m.check(len(c.x) == sc.N, "atoms", "structure %d: %d positions for %d sites" % (rec.num, len(c.x), sc.N), **d):
        return
    m.check(c.mode[:1] in "Dd", "mode", "structure %d: coordinates are declared as %r" % (rec.num, c.mode), **d)
    kinds = [i for i in range(k) for _ in range(cnt[i])]
    idx = locate(sc, c.x @ c.A)
    m.event("atoms-located", int((idx >= 0).sum()))
    if (idx < 0).any() or len(set(idx.tolist())) != sc.N:
        m.violate("positions", "structure %d: %d of %d atoms are on sites, %d sites occupied" % (rec.num, int((idx >= 0).sum()), sc.N, len(set(idx[idx >= 0].tolist()))), **d)
        return
    bad = [i for i in range(sc.N) if col[idx[i]] != kinds[i]]
    m.check(not bad, "species", "structure %d: atom %d is of species %d, the record has species %d at its site" % (
        rec.num, bad[0] + 1 if bad else 0, kinds[bad[0]] if bad else 0, col[idx[bad[0]]] if bad else 0), positions=c.x.tolist(), **d)


def run(m, lat, sizes, k, concs, arrows, reqs, mink, species, seed):
    A, B = lattices.get(lat)
    tag = "%s sizes %s k=%d" % (lat, sizes, k)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, concs, arrows)
        if reqs:
            requests(reqs)
        enum(enum=True, seed=seed, super=bool(reqs))
        h, recs = read_enum_out("enum.out")
        try:
            p = parent_of(A, B, h)
        except ValueError as e:
            m.violate("header", str(e), case=tag)
            return
        makestr(structures=["all"], input="enum.out", mink=mink, species=species, remove_zeros="t" if species and seed % 2 else "f")
        for r in recs:
            path = "vasp.%d" % r.num
            m.case((tag, r.hnf, r.lab, r.dirs, mink), nontrivial=len(set(r.lab)) > 1)
            if not os.path.exists(path):
                m.violate("missing-file", "no file was written for structure %d" % r.num, case=tag)
                continue
            judge(m, p, r, path, k, mink, bool(species) and seed % 2 == 1, tag)
    m.sample(dict(case=tag, structures=len(recs), mink=mink))


EL = ["Al", "Ni", "Cu", "Pd", "Pt", "Ag"]


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    # translation groups that are not cyclic
    forms = [(1, 2, 2), (1, 3, 3), (1, 2, 4), (2, 2, 2), (1, 2, 6), (1, 3, 6), (1, 4, 4), (2, 2, 4), (2, 2, 4), (2, 2, 4), (2, 2, 6), (3, 3, 3), (2, 2, 8), (2, 4, 4), (1, 4, 8), (3, 3, 6), (2, 2, 10)]

    def sampled(lat, top, k, n):
        nD = len(lattices.get(lat)[1])
        reqs = []
        for _ in range(n):
            s = rng.randint(1, max(1, top // nD))
            h = rng.choice(all_hnfs(s))
            if rng.random() < .4:
                F = rng.choice(forms)
                if F[0] * F[1] * F[2] * nD <= max(top, 64 if rng.random() < .2 else 36):
                    h = rng.choice(cells_with(F))
                    s = F[0] * F[1] * F[2]
            N = s * nD
            for _ in range(40):
                c = [0] * k
                while sum(c) < N:
                    c[rng.randrange(k)] += 1
                if n_states(c) <= 1500 or (n_states(c) > 100000 and c == sorted(c)):
                    break
            else:
                continue
            reqs.append([h, c, rng.randint(1, 4)])
        return reqs

    def add(lat, optional, arrows=None, **kw):
        k = kw.pop("k", rng.choice([2, 2, 3, 4]))
        reqs = kw.pop("reqs", None)
        T.append(dict(fn="run", args=dict(lat=lat, sizes=kw.get("sizes", [1, 30]), k=k, concs=[[0, 1, 1]] * k if arrows else None, arrows=arrows,
                 reqs=reqs, mink=rng.choice(["t", "t", "f"]), species=rng.choice([None, EL[:k]]), seed=rng.randrange(10 ** 6)), optional=optional))
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        for _ in range(1 if not big else 12):
            k = rng.choice([2, 2, 3])
            r = sampled(lat, 26, k, 10)
            if r:
                add(lat, False, k=k, reqs=r)
        if rng.random() < .4 or big:
            add(lat, False, k=2, sizes=[1, {1: 4, 2: 2, 3: 2, 4: 1, 5: 1}[nD]])
    for i in range(60 if not big else 1500):
        lat = lattices.random_parent(rng)
        k = rng.choice([2, 3, 4])
        r = sampled(lat, 26, k, 10)
        if r:
            add(lat, i > 15, k=k, reqs=r)
    # with directions, which are not applied here
    for lat in ["fcc", "sc", "tet", "sc2", "dia", "tri"]:
        nD = len(lattices.get(lat)[1])
        add(lat, False, arrows=[.5, 1.], k=2, sizes=[1, 2 if nD == 1 else 1])
    return T


main("C14", dict(run=run), tasks,
     "a case is one crystal file; non-trivial with at least two species; distinct by crystal, cell, labels, directions and reduction")
