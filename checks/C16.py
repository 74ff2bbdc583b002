"""Lattice reduction: same lattice, right-handed, really shortest; and it can be switched off."""
import itertools, random
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent, all_hnfs, hnf_matrix, same_lattice, n_states
from vlib import lattices
from vlib.crystal import read_poscar, parent_of, cells, superlattice, locate
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out, quiet

COEF = np.array([c for c in itertools.product(range(-3, 4), repeat=3) if any(c)])


def minima(A):
    """lengths of the successive minima, by size reduction and exhaustive search"""
    V = [np.array(v, float) for v in A]
    while True:
        V.sort(key=lambda v: v @ v)
        best = None
        for i in range(3):
            for a, b in itertools.product((-1, 0, 1), repeat=2):
                if a == b == 0:
                    continue
                j, k = [x for x in range(3) if x != i]
                w = V[i] + a * V[j] + b * V[k]
                if w @ w < V[i] @ V[i] * (1 - 1e-12):
                    best = (i, w)
                    break
            if best:
                break
            # long vectors: take out multiples at once
            for j in range(3):
                if j != i:
                    q = round(float(V[i] @ V[j] / (V[j] @ V[j])))
                    w = V[i] - q * V[j]
                    if q and w @ w < V[i] @ V[i] * (1 - 1e-12):
                        best = (i, w)
                        break
            if best:
                break
        if not best:
            break
        V[best[0]] = best[1]
    S = COEF @ np.array(V)
    S = S[np.argsort((S * S).sum(axis=1), kind="stable")]
    out = [S[0]]
    for v in S[1:]:
        M = np.array(out + [v])
        if len(out) == 1:
            ok = np.linalg.norm(np.cross(out[0], v)) > 1e-6 * np.linalg.norm(out[0]) * np.linalg.norm(v)
        else:
            ok = abs(np.linalg.det(M)) > 1e-6 * np.prod(np.linalg.norm(M, axis=1))
        if ok:
            out.append(v)
            if len(out) == 3:
                break
    return [float(np.linalg.norm(v)) for v in out]


def judge(m, IN, OUT, tag):
    IN, OUT = np.array(IN, float), np.array(OUT, float)
    d = dict(case=tag, given=IN.tolist(), returned=OUT.tolist())
    m.event("bases-observed")
    if OUT.shape != (3, 3) or not np.isfinite(OUT).all():
        m.violate("basis", "%s: not a basis" % tag, **d)
        return
    m.check(same_lattice(OUT, IN, tol=1e-4), "lattice", "%s: the returned basis generates another lattice" % tag, **d)
    m.check(np.linalg.det(OUT) > 0, "handedness", "%s: the returned basis is left-handed" % tag, **d)
    got = sorted(np.linalg.norm(OUT, axis=1))
    ref = minima(IN)
    m.check(np.allclose(got, ref, rtol=1e-5, atol=1e-5), "not-reduced", "%s: vector lengths %s, the shortest possible are %s" % (
        tag, np.round(got, 5).tolist(), np.round(ref, 5).tolist()), **d)


def direct(m, lat, cases):
    red = resolve("phenum.vector_utils:_minkowski_reduce_basis")
    A, B = lattices.get(lat)
    for h, U in cases:
        IN = (np.array(U) @ hnf_matrix(h).T @ np.array(A)).tolist()
        keep = [list(v) for v in IN]
        with quiet():
            OUT = red([list(v) for v in IN], 1e-7)
        judge(m, IN, OUT, "%s cell %s" % (lat, tuple(h)))
        m.case((str(lat), tuple(h), str(U)), nontrivial=not np.allclose(np.array(OUT), np.array(keep)))
    m.sample(dict(lattice=lat, cell=h, given=IN, reduced=np.array(OUT).tolist()))


def files(m, lat, k, reqs, seed):
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, [1, 60], k)
        with open("enum.in", "w") as f:
            f.write("# requests\n")
            for h, c, n in reqs:
                f.write(" ".join(map(str, h)) + " " + " ".join(map(str, c)) + " %d\n" % n)
        enum(enum=True, super=True, seed=seed)
        hd, recs = read_enum_out("enum.out")
        p = parent_of(A, B, hd)
        makestr(structures=["all"], input="enum.out", mink="t", outfile="red.{}")
        makestr(structures=["all"], input="enum.out", mink="f", outfile="raw.{}")
        for r in recs:
            sc, col, dr = cells(p, r)
            a, b = read_poscar("red.%d" % r.num), read_poscar("raw.%d" % r.num)
            S = superlattice(sc)
            tag = "%s cell %s" % (lat, r.hnf)
            m.event("files-observed", 2)
            m.case(("file", tag, r.lab), nontrivial=not np.allclose(a.A, b.A))
            if not m.check(np.abs(b.A - S).max() < 1e-5 * max(1, np.abs(r.hnf).max()), "unreduced", "%s: without reduction the vectors are %s instead of %s" % (tag, b.A.tolist(), S.tolist())):
                continue
            judge(m, b.A, a.A, tag)
            ia, ib = locate(sc, a.x @ a.A), locate(sc, b.x @ b.A)
            ca, cb = np.full(sc.N, -1), np.full(sc.N, -1)
            ka = [i for i in range(k) for _ in range(a.counts[i])]
            kb = [i for i in range(k) for _ in range(b.counts[i])]
            if len(ia) == len(ka) == sc.N and len(ib) == len(kb) == sc.N:
                ca[ia], cb[ib] = ka, kb
            m.check((ca >= 0).all() and (ca == cb).all(), "crystal", "%s: reduced and unreduced files describe different crystals" % tag, record=r.line)
    m.sample(dict(lattice=lat, records=len(recs)))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    ident = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]

    def unim():
        U = np.array(ident)
        for _ in range(rng.randint(0, 4)):
            i, j = rng.sample(range(3), 2)
            U[i] += rng.choice([-3, -1, 1, 2]) * U[j]
        if rng.random() < .5:
            U = U[rng.sample(range(3), 3)]
        if rng.random() < .3:
            U[rng.randrange(3)] *= -1
        return U.tolist()

    def cases(n, top):
        out = []
        for _ in range(n):
            s = rng.choice([1, rng.randint(1, 8), rng.randint(1, top), rng.randint(1, top)])
            h = rng.choice(all_hnfs(s))
            out.append([h, ident if rng.random() < .5 else unim()])
        return out
    for lat in lattices.LIB:
        T.append(dict(fn="direct", args=dict(lat=lat, cases=cases(150 if not big else 1500, 40))))
    for i in range(120 if not big else 2000):
        kind, A = lattices.random_lattice(rng, crowd=200)
        T.append(dict(fn="direct", args=dict(lat=[A, [[0, 0, 0]]], cases=cases(80, 40)), optional=i > 40))
    # no symmetry at all
    for i in range(40 if not big else 600):
        while True:
            A = [[round(rng.uniform(-2, 2), 3) for _ in range(3)] for _ in range(3)]
            if abs(np.linalg.det(A)) > .3:
                break
        T.append(dict(fn="direct", args=dict(lat=[A, [[0, 0, 0]]], cases=cases(80, 40)), optional=i > 10))
    for i in range(16 if not big else 200):
        lat = rng.choice(["fcc", "bcc", "hex", "hcp", "tri", "dia", "mono", "out2"]) if i % 2 else lattices.random_parent(rng)
        nD = len(lattices.get(lat)[1])
        reqs = []
        for _ in range(6):
            n = rng.randint(1, 30)
            N = n * nD
            reqs.append([rng.choice(all_hnfs(n)), [1, N - 1] if N > 1 else [0, 1], 1])
        T.append(dict(fn="files", args=dict(lat=lat, k=2, reqs=reqs, seed=rng.randrange(10 ** 6)), optional=i > 6))
    return T


main("C16", dict(direct=direct, files=files), tasks,
     "a case is one basis; non-trivial when reduction changes it; distinct by lattice, cell and change of basis")
