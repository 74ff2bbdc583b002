"""Two descriptions of the same crystal give the same counts."""
import random
from collections import Counter
import numpy as np
from vlib.harness import main
from vlib.geom import Parent, all_hnfs
from vlib import lattices, enumcheck
from vlib.run import scratch, enum, write_lattice, read_polya, read_enum_out


def observe(m, A, B, sizes, k, concs, arrows, sup, perm=None):
    """runs the program; perm[i]: the original species that is called i here"""
    perm = perm or list(range(k))
    inv = [perm.index(i) for i in range(k)]
    back = lambda c: tuple(c[inv[i]] for i in range(k))
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, [concs[i] for i in perm] if concs else None, [arrows[i] for i in perm] if arrows else None)
        enum(polya=True)
        tab = {}
        for n in range(sizes[0], sizes[1] + 1):
            cs, rows, last = read_polya("polya.out.%d" % n)
            cs = [back(c) for c in cs]
            tab[n] = sorted(tuple(sorted(zip(cs, r[1]))) for r in rows)
            m.event("rows", len(rows))
        enum(enum=True, super=sup)
        h, recs = read_enum_out("enum.out")
        m.event("structures", len(recs))
        cells = {}
        for r in recs:
            c = back(tuple(r.lab.count(str(i)) for i in range(k)))
            a = back(tuple(sum(1 for l, x in zip(r.lab, r.dirs) if l == str(i) and x != "0") for i in range(k)))
            cells.setdefault((r.size, r.hnf), Counter())[(c, a)] += 1
        enumd = sorted((n, tuple(sorted(v.items()))) for (n, _), v in cells.items())
    return tab, enumd


def redescribe(rng, A, B, arrows, kind):
    """another description of the same crystal: (A, B) or None"""
    A, B = np.array(A, float), np.array(B, float)
    nD = len(B)
    if kind == "cell":
        for _ in range(100):
            A2 = lattices.unimodular(rng, 3) @ A
            if lattices.short_vectors(A2) <= 31 and np.abs(A2 - A).max() > 1e-9:
                return A2, B
        return None
    if kind == "origin":
        t = np.array([rng.choice([0, .5, .25, 1 / 3., round(rng.random(), 2), -round(rng.random(), 2)]) for _ in range(3)]) @ A
        return A, B + t
    if kind == "rotate":
        if arrows:
            P = np.eye(3)[rng.sample(range(3), 3)] * np.array([rng.choice([-1, 1]) for _ in range(3)])
            return A @ P, B @ P
        q = np.array([rng.gauss(0, 1) for _ in range(4)])
        q /= np.linalg.norm(q)
        w, x, y, z = q
        R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
        return A @ R.T, B @ R.T
    if kind == "mirror":
        P = np.diag(rng.choice([[-1, 1, 1], [1, -1, 1], [-1, -1, -1]]))
        return A @ P, B @ P
    if kind == "swap":      # opposite handedness of the cell
        o = rng.choice([[1, 0, 2], [2, 1, 0], [0, 2, 1]])
        return A[o], B
    if kind == "scale":
        s = rng.choice([.5, 2., 1.7, 4.05, .83])
        return A * s, B * s
    if kind == "sites":
        if nD == 1:
            return None
        o = list(range(nD))
        while o == sorted(o):
            rng.shuffle(o)
        return A, B[o]
    if kind == "shift":
        return A, B + np.array([[rng.choice([-2, -1, 0, 1, 1, 3]) for _ in range(3)] for _ in range(nD)]) @ A
    raise ValueError(kind)


KIND = ["cell", "origin", "rotate", "mirror", "swap", "scale", "sites", "shift"]


def safe(A, B):
    """no site within reach of rounding but not of exact agreement with a cell face"""
    d = np.array(B) @ np.linalg.inv(np.array(A))
    e = np.abs(d - np.round(d))
    return not ((e > 3e-15) & (e < 1e-5)).any()


def pair(m, lat, sizes, k, concs, arrows, sup, kinds, seed):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    base = observe(m, A, B, sizes, k, concs, arrows, sup)
    for kind in kinds:
        perm = None
        A2, B2 = A, B
        if kind == "species":
            if k == 1:
                continue
            perm = list(range(k))
            while perm == sorted(perm):
                rng.shuffle(perm)
        elif kind == "all":
            for kk in rng.sample(KIND, 4):
                x = redescribe(rng, A2, B2, arrows, kk)
                if x is not None:
                    A2, B2 = x
        else:
            x = redescribe(rng, A, B, arrows, kind)
            if x is None:
                continue
            A2, B2 = x
        if not safe(A2, B2) or lattices.short_vectors(A2) > 60:
            m.event("skipped-rounding")
            continue
        A2, B2 = np.array(A2).tolist(), np.array(B2).tolist()
        other = observe(m, A2, B2, sizes, k, concs, arrows, sup, perm)
        m.case((str(lat), kind, sizes, k, concs, arrows, sup, A2, B2, perm), nontrivial=len(base[1]) > 1)
        m.event("pairs-" + kind)
        d = dict(lattice=[A, B], other=[A2, B2], species=perm)
        tag = "%s, described anew (%s)" % (lat, kind)
        for n in base[0]:
            if len(base[0][n]) != len(other[0][n]):
                m.violate("supercells", "%s: %d supercells of size %d instead of %d" % (tag, len(other[0][n]), n, len(base[0][n])), **d)
            elif base[0][n] != other[0][n]:
                m.violate("predictions", "%s: the predictions for size %d differ" % (tag, n), a=str(base[0][n])[:300], b=str(other[0][n])[:300], **d)
        if base[1] != other[1]:
            na, nb = [sum(c for _, v in x for _, c in v) for x in (base[1], other[1])]
            m.violate("structures", "%s: %d structures instead of %d, or differently distributed over cells and compositions" % (tag, nb, na), **d)
    m.sample(dict(lattice=lat, sizes=sizes, species=k, concs=concs, displaced=arrows, redescribed=kinds))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def add(lat, optional=False):
        A, B = lattices.get(lat)
        nD = len(B)
        k = rng.choice([2, 2, 3])
        concs = arrows = None
        if rng.random() < .3:
            concs = [sorted([rng.randint(0, 4), rng.randint(0, 4)]) + [4] for _ in range(k)]
        if rng.random() < .35 and Parent(A, B).axes_permuting():
            arrows = [rng.choice([0, .5, 1.]) for _ in range(k)]
            concs = concs or [[0, 1, 1]] * k
        n = {1: 5, 2: 3, 3: 2}.get(nD, 1)
        lim = 6000 if not big else 60000
        while n > 1 and enumcheck.work(n * nD, k, concs, arrows) * len(all_hnfs(n)) > lim:
            n -= 1
        if enumcheck.work(n * nD, k, concs, arrows) * len(all_hnfs(n)) > lim * 3:
            return
        kinds = KIND + ["species", "all"]
        if not big:
            kinds = rng.sample(KIND, 3) + rng.choice([["species"], ["all"], ["all", "all"]])
        T.append(dict(fn="pair", args=dict(lat=lat, sizes=[1, n], k=k, concs=concs, arrows=arrows, sup=rng.random() < .5, kinds=kinds,
                                           seed=rng.randrange(10 ** 6)), optional=optional))
    for lat in lattices.LIB:
        for _ in range(1 if not big else 4):
            add(lat)
    for i in range(40 if not big else 400):
        add(lattices.random_parent(rng, nD=rng.choice([1, 2, 2, 3])), i > 8)
    return T


main("C20", dict(pair=pair), tasks,
     "a case is a pair of runs on two descriptions of one crystal; non-trivial when several cells hold structures; distinct by crystal, request and description")
