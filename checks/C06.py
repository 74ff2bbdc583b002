"""Polya counts are exact numbers of orbits."""
import itertools, copy
import numpy as np
from math import gcd
from vlib.harness import main, resolve, OracleError
from vlib.geom import Parent, Supercell, burnside, n_states, all_hnfs, cycles
from vlib import lattices
from vlib.run import quiet


def close(gens):
    """group generated by (site, arrow) permutation pairs"""
    n, d = len(gens[0][0]), len(gens[0][1])
    e = (tuple(range(n)), tuple(range(d)))
    G = {e}
    todo = [e]
    while todo:
        s, a = todo.pop()
        for gs, ga in gens:
            x = (tuple(s[i] for i in gs), tuple(a[i] for i in ga))
            if x not in G:
                G.add(x)
                todo.append(x)
    return sorted(G)


def explicit(group, counts, arrowed):
    """number of orbits by walking through every decorated colouring"""
    syms = []
    for i, c in enumerate(counts):
        syms += [i] * c
    d = len(group[0][1])
    ops = []
    for s, a in group:
        inv = [0] * len(s)
        for i, t in enumerate(s):
            inv[t] = i
        ops.append((inv, a))
    seen = set()
    orbits = 0
    for col in set(itertools.permutations(syms)) if len(syms) <= 7 else []:
        pos = [i for i, c in enumerate(col) if arrowed[c]]
        for dirs in itertools.product(range(d), repeat=len(pos)):
            st = [(c, -1) for c in col]
            for p, x in zip(pos, dirs):
                st[p] = (st[p][0], x)
            st = tuple(st)
            if st in seen:
                continue
            orbits += 1
            for inv, a in ops:
                seen.add(tuple((st[i][0], a[st[i][1]] if st[i][1] >= 0 else -1) for i in inv))
    return orbits


def judge(m, polya, group, counts, narr, tag, walk=False):
    k = len(counts)
    arrowed = [i >= k - narr for i in range(k)]
    ref = burnside([(s, a) for s, a in group], tuple(counts), arrowed)
    if walk and sum(counts) <= 7 and n_states(counts, [c if x else 0 for c, x in zip(counts, arrowed)]) < 60000:
        e = explicit(group, counts, arrowed)
        m.event("explicit-orbit-counts")
        if e != ref:
            raise OracleError("Burnside %d, explicit %d" % (ref, e))
    g = [[list(s), list(a)] for s, a in group]
    with quiet():
        if narr:
            got = polya(list(counts), g, arrowings=narr)
        else:
            got = polya(list(counts), g)
    m.event("counts-observed")
    if ref >= 2 ** 63:
        m.event("counts-beyond-64-bit")
    m.case((tag, tuple(counts), narr), nontrivial=ref > 1)
    m.check(int(got) == ref and got == ref, "count", "%s composition %s with %d displaced species: reported %s, exact %s" % (
        tag, list(counts), narr, got, ref))
    return got


def supercells(m, lat, hnfs, comps):
    polya = resolve("phenum.polyaburnside:polya")
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    ax = p.axes_permuting()
    for h in hnfs:
        sc = Supercell(p, tuple(h))
        plain = [(s, tuple(range(6))) for s, _ in sc.group(False)]
        arr = sc.group(True) if ax else None
        for c in comps:
            counts = part(sc.N, c)
            got = judge(m, polya, plain, counts, 0, "cell %s of %s" % (h, lat))
            if ax:
                narr = 1 + c[0] % len(counts)
                judge(m, polya, arr, counts, narr, "cell %s of %s" % (h, lat), walk=sc.N <= 4)
    m.sample(dict(lattice=lat, cell=h, composition=counts, count=got))


def part(N, c):
    """a composition of N from a list of weights"""
    w = sum(c)
    out = [N * x // w for x in c]
    out[c.index(max(c))] += N - sum(out)
    return [x for x in out]


def abstract(m, gens, comps, narr, dim):
    polya = resolve("phenum.polyaburnside:polya")
    G = close([(tuple(s), tuple(a)) for s, a in gens])
    if len(G) > 3000:
        return
    for c in comps:
        counts = part(len(gens[0][0]), c)
        judge(m, polya, G, counts, min(narr, len(counts)), "group of order %d" % len(G), walk=len(G) < 400)


def cyclic(m, N, comps, narr):
    """rotations of a ring: counts grow beyond any machine integer"""
    polya = resolve("phenum.polyaburnside:polya")
    s = tuple((i + 1) % N for i in range(N))
    G = close([(s, (0, 1, 2, 3, 4, 5))])
    for c in comps:
        got = judge(m, polya, G, part(N, c), narr, "ring of %d" % N)
    m.sample(dict(ring=N, composition=part(N, c), count=str(got)))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def weights(k):
        while True:
            w = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(k)]
            if sum(w):
                return w
    for lat in lattices.LIB:
        A, B = lattices.get(lat)
        nmax = max(1, (12 if not big else 16) // len(B))
        hs = [rng.choice(all_hnfs(rng.randint(1, nmax))) for _ in range(4)]
        T.append(dict(fn="supercells", args=dict(lat=lat, hnfs=hs, comps=[weights(k) for k in (2, 2, 3, 3, 4)])))
    for i in range(150 if not big else 3000):
        lat = lattices.random_parent(rng, nD=rng.choice([1, 1, 2, 3]))
        nmax = max(1, (14 if not big else 20) // len(lat[1]))
        hs = [rng.choice(all_hnfs(rng.randint(1, nmax))) for _ in range(3)]
        T.append(dict(fn="supercells", args=dict(lat=lat, hnfs=hs, comps=[weights(rng.randint(1, 4)) for _ in range(4)]), optional=i > 20))
    for i in range(300 if not big else 4000):
        n = rng.randint(1, 7)
        dim = rng.choice([6, 6, 6, 4, 3, 1])
        gens = []
        for _ in range(rng.randint(1, 2)):
            s, a = list(range(n)), list(range(dim))
            rng.shuffle(s)
            if rng.random() < .7:
                rng.shuffle(a)
            gens.append([s, a])
        T.append(dict(fn="abstract", args=dict(gens=gens, comps=[weights(rng.randint(1, 4)) for _ in range(4)], narr=rng.randint(0, 2), dim=dim),
                      optional=i > 30))
    for N in [12, 24, 30, 36, 40, 48, 60, 64, 72, 96]:
        T.append(dict(fn="cyclic", args=dict(N=N, comps=[weights(k) for k in (2, 3, 4)], narr=0)))
        T.append(dict(fn="cyclic", args=dict(N=N, comps=[weights(k) for k in (2, 3)], narr=1)))
    return T


main("C06", dict(supercells=supercells, abstract=abstract, cyclic=cyclic), tasks,
     "a case is one count for a group and composition; non-trivial when more than one orbit exists; distinct by group, composition and displaced species")
