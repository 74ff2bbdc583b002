"""Point group and space group of parent crystals."""
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent
from vlib import lattices
from vlib.run import quiet


def matchset(got, ref, tol):
    """pairs up two lists of arrays; returns (unmatched got, unmatched ref)"""
    left = list(ref)
    extra = []
    for g in got:
        for i, r in enumerate(left):
            if np.abs(g - r).max() < tol:
                left.pop(i)
                break
        else:
            extra.append(g)
    return extra, left


def point(m, lat):
    f = resolve("phenum.symmetry:get_lattice_pointGroup")
    A, B = lattices.get(lat)
    p = Parent(A, [[0, 0, 0]])
    ref = [p.cart(W) for W in p.point_group()]
    with quiet():
        got = [np.array(R) for R in f([list(v) for v in A])]
    # the program acts on row vectors; the point group is closed under transposition anyway
    e, l = matchset([g.T for g in got], ref, 1e-6)
    m.event("operations-observed", len(got))
    m.case(("point", str(lat)), len(ref) > 2)
    m.check(not e, "extra-point-operation", "%d returned operations are no symmetries of the lattice (or repeated)" % len(e), example=e[:1])
    m.check(not l, "missing-point-operation", "%d of %d symmetries of the lattice are missing" % (len(l), len(ref)), example=l[:1])
    m.sample(dict(lattice=lat, order=len(got)))


def space(m, lat, types, direct):
    f = resolve("phenum.symmetry:get_spaceGroup")
    A, B = lattices.get(lat)
    p = Parent(A, B)
    ref = []
    # sites of equal types only
    for W in p.point_group():
        for j in range(p.nD):
            if types[j] != types[0]:
                continue
            t = p.d[j] - W @ p.d[0]
            ok = True
            for i in range(p.nD):
                x = W @ p.d[i] + t
                df = x - p.d
                df = df - np.round(df)
                hit = [k for k in range(p.nD) if np.abs(df[k]).max() < 1e-5]
                if not hit or types[hit[0]] != types[i]:
                    ok = False
                    break
            if ok:
                ref.append((W, t))
    sites = (p.d if direct else p.basis).tolist()
    keep = [list(v) for v in sites]
    Acopy = [list(v) for v in A]
    with quiet():
        rots, shifts = f(Acopy, list(types), sites, 1e-7, direct)
    if len(rots) != len(shifts):
        m.violate("unpaired", "%d rotations but %d translations" % (len(rots), len(shifts)))
        return
    got = []
    for R, t in zip(rots, shifts):
        W = p.Ainv.T @ np.array(R).T @ p.A.T
        got.append((W, np.array(t) @ p.Ainv))

    def vec(W, t):
        # translations modulo the lattice: compare on the circle
        return np.concatenate([np.asarray(W, float).ravel(), np.cos(2 * np.pi * t), np.sin(2 * np.pi * t)])
    e, l = matchset([vec(*x) for x in got], [vec(*x) for x in ref], 1e-4)
    m.event("operations-observed", len(got))
    m.case(("space", str(lat), tuple(types), direct), len(ref) > 1)
    m.check(not e, "extra-space-operation", "%d of %d returned operations are no symmetries of the crystal (or repeated)" % (len(e), len(got)),
            types=types, example=e[:1])
    m.check(not l, "missing-space-operation", "%d of %d symmetries of the crystal are missing" % (len(l), len(ref)), types=types, example=l[:1])
    for W, t in got:
        if not (t > -1e-6).all() or not (t < 1 + 1e-6).all():
            m.violate("translation-outside", "a translation %s is not reduced into the cell" % t.tolist())
            break
    m.check(Acopy == [list(v) for v in A] and sites == keep, "input-modified", "the given lattice or sites were modified")
    m.sample(dict(lattice=lat, types=types, order=len(got), nonsymmorphic=bool(any(np.abs(t - np.round(t)).max() > 1e-3 for W, t in got))))


def tasks(tier, rng):
    T = []
    for lat, (A, B) in lattices.LIB.items():
        T.append(dict(fn="point", args=dict(lat=lat)))
        T.append(dict(fn="space", args=dict(lat=lat, types=[1] * len(B), direct=False)))
        if len(B) > 1:
            for _ in range(2):
                T.append(dict(fn="space", args=dict(lat=lat, types=[rng.randint(1, 3) for _ in B], direct=rng.random() < .5)))
    for i in range(40 if tier == "quick" else 800):
        lat = lattices.nearly(rng, lattices.random_parent(rng, nD=rng.choice([1, 2, 2, 3])) if rng.random() < .6 else lattices.get(rng.choice(list(lattices.LIB))))
        T.append(dict(fn="point", args=dict(lat=lat), optional=i > 12))
        T.append(dict(fn="space", args=dict(lat=lat, types=[1] * len(lat[1]), direct=rng.random() < .4), optional=i > 12))
    for i in range(90 if tier == "quick" else 2500):
        lat = lattices.random_parent(rng, nD=rng.choice([1, 2, 2, 3, 4, 5]))
        T.append(dict(fn="point", args=dict(lat=lat), optional=i > 20))
        T.append(dict(fn="space", args=dict(lat=lat, types=[1] * len(lat[1]), direct=rng.random() < .4), optional=i > 20))
        if len(lat[1]) > 1:
            T.append(dict(fn="space", args=dict(lat=lat, types=[rng.randint(1, 2) for _ in lat[1]], direct=rng.random() < .4), optional=i > 20))
    return T


main("C05", dict(point=point, space=space), tasks,
     "a case is the group of one lattice or crystal; non-trivial when it is not the trivial one; distinct by lattice, sites and types")
