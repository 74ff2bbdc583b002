"""Sampled enumeration: distinct structures of the requested kind, the right number of them."""
import random
from fractions import Fraction
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent, Supercell, Actor, burnside, all_hnfs, n_states, cells_with, enumerate_states
from vlib import lattices
from vlib.enumcheck import decode, arrow_counts, composition
from vlib.run import scratch, enum, write_lattice, read_enum_out, quiet


def split(counts, ac):
    """composition with the displaced atoms of each species as species of their own"""
    c, a = [], []
    for x, y in zip(counts, ac or [0] * len(counts)):
        c += [x - y, y]
        a += [False, True]
    return tuple(c), a


def available(sc, counts, ac):
    arrows = ac is not None and any(ac)
    g = sc.group(arrows)
    c, a = split(counts, ac)
    return burnside(g, c, a if arrows else None)


def multinomial(c):
    return n_states(c)


def requests(path, reqs):
    with open(path, "w") as f:
        f.write("# requests\n")
        for h, c, n in reqs:
            f.write(" ".join(map(str, h)) + "  " + " ".join(map(str, c)) + "  %d\n" % n)


def run(m, lat, k, fractions, reqs, sup, accept, seeds):
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    arrows = bool(fractions)
    reqs = [(tuple(h), tuple(c), n) for h, c, n in reqs]
    avail = {}
    for h, c, n in reqs:
        avail[h] = available(Supercell(p, h), c, arrow_counts(c, fractions))
    # "all" and "all but one" are requested by negative numbers
    reqs = [(h, c, n if n > 0 else max(1, avail[h] + n)) for h, c, n in reqs]
    for seed in seeds:
        with scratch():
            write_lattice("lattice.in", A, B, [1, 1], k, [[0, 1, 1]] * k if arrows else None, fractions if arrows else None)
            requests("enum.in", reqs)
            enum(enum=True, input="enum.in", outfile="enum.out", seed=seed, super=sup, acceptrate=accept)
            hd, recs = read_enum_out("enum.out")
        judge(m, p, k, fractions, reqs, avail, recs, sup, accept, seed)
    m.sample(dict(lattice=lat, requests=[[h, c, n, "of %d" % avail[h]] for h, c, n in reqs][:4], fractions=fractions, superperiodic=sup, accept=accept))


def judge(m, p, k, fractions, reqs, avail, recs, sup, accept, seed):
    arrows = bool(fractions) and any(fractions)
    try:
        dec = decode(recs, p, arrows, k)
    except ValueError as e:
        m.violate("malformed", str(e))
        return
    for h in dec:
        m.check(h in [r[0] for r in reqs], "foreign-cell", "cell %s was not requested" % (h,))
    for h, c, n in reqs:
        d = dict(lattice=p.name, cell=h, composition=c, requested=n, available=avail[h], fractions=fractions,
                 superperiodic=sup, accept=accept, seed=seed)
        sc, act, st, rs = dec.get(h, (None, None, [], []))
        m.event("structures-observed", len(st))
        m.case((p.name, h, c, n, sup, accept, seed, str(fractions)), nontrivial=n < avail[h])
        ac = arrow_counts(c, fractions) if arrows else [0] * k
        sampler = not any(ac) and multinomial(c) > 100000 and n <= 100
        if sampler or (any(ac) and n <= 100 and (multinomial(c) > 100000 or sum(c) >= 12)):
            m.event("random-search-requests")
        for s, r in zip(st, rs):
            got = composition(s, k)
            if got != c:
                if sampler and got == tuple(sorted(c)):
                    m.violate("sampler-species-order", "cell %s: composition %s was requested, %s returned" % (h, c, got), **d)
                else:
                    m.violate("composition", "cell %s: composition %s was requested, %s returned" % (h, c, got), **d)
                break
            if arrows:
                na = [int(((s // 7 == i) & (s % 7 > 0)).sum()) for i in range(k)]
                if na != list(ac):
                    m.violate("displaced", "cell %s: %s atoms of each species should be displaced, %s are" % (h, ac, na), **d)
                    break
        if len(st):
            cn = act.canon(st)
            if len(set(cn)) != len(cn):
                i = next(i for i in range(len(cn)) if cn[i] in cn[:i])
                j = cn.index(cn[i])
                m.violate("equivalent", "cell %s: returned structures %s %s and %s %s are equivalent" % (
                    h, rs[j].lab, rs[j].dirs, rs[i].lab, rs[i].dirs), **d)
            if not sup:
                m.check(not act.superperiodic(st).any(), "superperiodic", "cell %s: a superperiodic structure was returned" % (h,), **d)
        want = min(n, avail[h])
        if sup and accept in (None, 1.0):
            m.check(len(st) == want, "number", "cell %s: %d structures were requested, %d exist, %d were returned" % (
                h, n, avail[h], len(st)), **d)
        else:
            m.check(len(st) <= want, "too-many", "cell %s: %d structures were requested, %d exist, %d were returned" % (
                h, n, avail[h], len(st)), **d)


def reach(m, lat, h, c, n, seeds):
    """over many seeds every structure is picked at least once"""
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    k = len(c)
    av = available(Supercell(p, tuple(h)), tuple(c), None)
    seen = {}
    with scratch():
        write_lattice("lattice.in", A, B, [1, 1], k)
        requests("enum.in", [(h, c, n)])
        for s in seeds:
            enum(enum=True, input="enum.in", outfile="enum.out", seed=s, super=True)
            hd, recs = read_enum_out("enum.out")
            dec = decode(recs, p, False, k)
            for sc, act, st, rs in dec.values():
                for x in act.canon(st):
                    seen[x] = seen.get(x, 0) + 1
    m.event("seeds-sampled", len(seeds))
    m.case(("reach", str(lat), tuple(h), tuple(c), n), nontrivial=av > n)
    m.check(len(seen) == av, "out-of-reach", "cell %s of %s composition %s: with %d seeds only %d of %d structures were ever picked" % (
        h, lat, c, len(seeds), len(seen), av))


def search(m, lat, h, c, numbers, seed):
    """the random search itself, on cells so small that it meets everything there is: rare events of
    large cells (superperiodic picks, running out of structures) happen all the time here"""
    import inspect
    f = resolve("phenum.tree:guess_and_check_brancher")
    if list(inspect.signature(f).parameters)[:7] != ["concs", "group", "colors_w_arrows", "dim", "supers", "cellsize", "num_wanted"]:
        m.event("other-search-interface")
        return
    A, B = lattices.get(lat)
    sc = Supercell(Parent(A, B, str(lat)), tuple(h))
    act = Actor(sc, False)
    E = enumerate_states(c)
    nsup = len(set(act.canon(E[~act.superperiodic(E)]))) if len(E) else 0
    nall = len(set(act.canon(E)))
    tr = [t.tolist() for t in sc.translations()]
    tr.sort(key=lambda t: t != list(range(sc.N)))
    rest = [list(g[0]) for g in sc.group(False) if list(g[0]) not in tr]
    arr = [0, 1, 2, 3, 4, 5]
    for sup in (True, False):
        for n in numbers:
            random.seed(seed + n)
            colours = [[-1, i + 1] for i in range(len(c)) for _ in range(c[i])]
            with quiet():
                got = f(list(c), [[t, arr] for t in tr + rest], colours, 6, sup, sc.n, n)
            d = dict(lattice=lat, cell=h, composition=c, requested=n, superperiodic=sup)
            st = np.array([[7 * (x[1] - 1) for x in g] for g in got], dtype=np.uint8).reshape(-1, sc.N)
            m.event("search-structures-observed", len(st))
            have = nall if sup else nsup
            m.case(("search", str(lat), tuple(h), tuple(c), n, sup), nontrivial=n < have)
            if not m.check(all(sorted(x.tolist()) == sorted(7 * i for i in range(len(c)) for _ in range(c[i])) for x in st), "composition", "a pick has another composition than %s" % (c,), **d):
                continue
            cn = act.canon(st)
            m.check(len(set(cn)) == len(cn), "equivalent", "cell %s: the random search returned equivalent structures" % (h,), **d)
            if not sup:
                m.check(not act.superperiodic(st).any(), "superperiodic", "cell %s: the random search returned a superperiodic structure" % (h,), **d)
                m.check(len(st) <= min(n, have), "too-many", "cell %s: %d structures were requested, %d exist, %d were returned" % (h, n, have, len(st)), **d)
            else:
                m.check(len(st) == min(n, have), "number", "cell %s: %d structures were requested, %d exist, %d were returned" % (h, n, have, len(st)), **d)


def pick_comp(rng, N, k):
    while True:
        cut = sorted(rng.randint(0, N) for _ in range(k - 1))
        c = [b - a for a, b in zip([0] + cut, cut + [N])]
        if k == 1 or max(c) < N or rng.random() < .05:
            return c


NUM = [1, 1, 2, 3, 5, 8, 13, -1, 0, -2]


def number(rng, hi):
    x = rng.choice(NUM + [rng.randint(1, hi)])
    return x


def tasks(tier, rng):
    big = tier == "thorough"
    T = []
    # the listed finding
    T.append(dict(fn="run", args=dict(lat="fcc", k=4, fractions=None, reqs=[[(1, 0, 1, 0, 0, 12), (5, 2, 3, 2), 4]], sup=True, accept=None, seeds=[1])))

    def cells(N, nD, howmany):
        hs = all_hnfs(N // nD)
        return rng.sample(hs, min(howmany, len(hs)))

    def lat_for(arrows, i):
        if i % 3 == 0:
            return lattices.random_parent(rng, nD=rng.choice([1, 1, 2]), kinds=lattices.AXES if arrows else None, skew=not arrows or rng.random() < .5)
        return rng.choice(["fcc", "sc", "bcc", "tet", "orth", "sc2", "dia", "tet2", "gen2"] + ([] if arrows else ["hex", "hcp", "rhom", "mono"]))
    # complete search with a random subset
    for i in range(60 if not big else 900):
        lat = lat_for(False, i)
        nD = len(lattices.get(lat)[1])
        k = rng.choice([2, 2, 3, 3, 4])
        n = rng.randint(2, 7 // nD + 1)
        reqs = []
        for h in cells(n * nD, nD, rng.randint(1, 4)):
            c = pick_comp(rng, n * nD, k)
            if multinomial(c) > 2600:
                continue
            reqs.append([h, c, number(rng, 20)])
        if reqs:
            T.append(dict(fn="run", args=dict(lat=lat, k=k, fractions=None, reqs=reqs, sup=rng.random() < .6,
                     accept=rng.choice([None, None, None, None, .5, 1.0, .05]), seeds=[rng.randrange(10 ** 6) for _ in range(3)]), optional=i > 15))
    # random search without displacements
    for i in range(24 if not big else 300):
        lat = lat_for(False, i)
        nD = len(lattices.get(lat)[1])
        k = rng.choice([2, 3, 3, 4, 5])
        n = rng.randint(12 // nD, 20 // nD)
        reqs = []
        for h in cells(n * nD, nD, 3):
            for _ in range(50):
                c = sorted(pick_comp(rng, n * nD, k))
                if 100000 < multinomial(c) and min(c) > 0:
                    break
            else:
                continue
            if rng.random() < .2:
                rng.shuffle(c)
            reqs.append([h, c, rng.choice([1, 2, 5, 10, 40, 100])])
        if reqs:
            T.append(dict(fn="run", args=dict(lat=lat, k=k, fractions=None, reqs=reqs, sup=rng.random() < .6,
                     accept=None, seeds=[rng.randrange(10 ** 6)]), optional=i > 8))
    # more than the random search takes, too many to list: the leading part
    for i in range(12 if not big else 60):
        lat = rng.choice(["fcc", "sc", "bcc", "hex", "tet", "tri"])
        h = rng.choice(all_hnfs(rng.randint(20, 24)))
        N = h[0] * h[2] * h[5]
        c = sorted([N // 3, N // 3, N - 2 * (N // 3)])
        T.append(dict(fn="run", args=dict(lat=lat, k=3, fractions=None, reqs=[[h, c, rng.randint(101, 180) if i % 2 else rng.randint(501, 1800)]], sup=i % 3 > 0,
                 accept=None if i % 4 else rng.choice([.5, .02]), seeds=[rng.randrange(10 ** 6)]), optional=i > 3))
    for i in range(6 if not big else 40):
        lat = rng.choice(["tet", "bcc", "mono", "tri", "orth"])
        h = rng.choice([x for x in all_hnfs(16) if Parent(*lattices.get(lat)).axes_permuting()] or [(1, 0, 1, 0, 0, 16)])
        T.append(dict(fn="run", args=dict(lat=lat, k=2, fractions=[0, .5], reqs=[[h, [8, 8], rng.randint(101, 180) if i % 2 else rng.randint(501, 1800)]], sup=i % 3 > 0,
                 accept=None, seeds=[rng.randrange(10 ** 6)]), optional=i > 2))
    # displacements
    for i in range(70 if not big else 900):
        lat = lat_for(True, i)
        nD = len(lattices.get(lat)[1])
        k = rng.choice([1, 2, 2, 3])
        for _ in range(30):
            n = rng.randint(1, max(1, 5 // nD))
            fr = [rng.choice([0, 0, .25, .34, .5, .5, 1.0]) for _ in range(k)]
            if not any(fr):
                continue
            reqs = []
            for h in cells(n * nD, nD, 3):
                c = pick_comp(rng, n * nD, k)
                ac = arrow_counts(c, fr)
                if n_states(c, ac) > 8000:
                    continue
                reqs.append([h, c, number(rng, 40)])
            if reqs:
                break
        else:
            continue
        T.append(dict(fn="run", args=dict(lat=lat, k=k, fractions=fr, reqs=reqs, sup=rng.random() < .6,
                 accept=rng.choice([None, None, None, .5, 1.0]), seeds=[rng.randrange(10 ** 6) for _ in range(2)]), optional=i > 20))
    # random search with displacements: large cells, few displaced atoms, also with fewer structures than asked for
    for i in range(30 if not big else 400):
        lat = rng.choice(["fcc", "sc", "bcc", "tet", "orth", "sc2", "dia"])
        nD = len(lattices.get(lat)[1])
        n = rng.randint(-(-12 // nD), 16 // nD)
        N = n * nD
        k = rng.choice([1, 2, 2, 3])
        a = rng.randint(1, 3)
        if k == 1:
            c, fr = [N], [Fraction(a, N)]
        elif k == 2:
            c, fr = rng.choice([([N - a, a], [0, 1]), ([a, N - a], [1, 0]), ([N - 4, 4], [0, .5]), ([4, N - 4], [.25, 0])])
        else:
            c, fr = [2, N - 4, 2], [rng.choice([.5, 1]), 0, rng.choice([0, .5])]
        fr = [float(f) + (1e-9 if float(f) not in (0, 1, .5, .25) else 0) for f in fr]
        h = cells(N, nD, 1)[0]
        T.append(dict(fn="run", args=dict(lat=lat, k=k, fractions=fr, reqs=[[h, c, rng.choice([1, 2, 5, 20, 100])]], sup=rng.random() < .6,
                 accept=None, seeds=[rng.randrange(10 ** 6)]), optional=i > 12))
    # the search on small cells
    forms = [(1, 1, 4), (1, 2, 2), (1, 1, 6), (2, 2, 2), (1, 2, 4), (1, 1, 8), (1, 3, 3), (1, 1, 5), (1, 1, 9), (1, 2, 6)]
    for i in range(24 if not big else 400):
        nD = rng.choice([1, 1, 1, 2])
        lat = rng.choice(["fcc", "sc", "bcc", "tet", "hex", "tri"] if nD == 1 else ["hcp", "dia", "gen2", "sc2"])
        F = forms[i % len(forms)]
        n = F[0] * F[1] * F[2]
        for _ in range(60):
            d = rng.choice([x for x in range(2, n + 1) if n % x == 0])      # compositions with superperiodic structures
            c = sorted(d * x for x in pick_comp(rng, n * nD // d, rng.choice([2, 2, 3]))) if rng.random() < .8 else sorted(pick_comp(rng, n * nD, 2))
            if min(c) > 0 and multinomial(c) <= 1700:
                T.append(dict(fn="search", args=dict(lat=lat, h=rng.choice(cells_with(F)), c=c, numbers=[1, 2, 5, 100], seed=rng.randrange(10 ** 6)), optional=i >= 16))
                break
    # reach
    for lat, h, c, n in [("fcc", (1, 0, 2, 1, 0, 2), (2, 2), 1), ("sc", (1, 0, 1, 0, 0, 6), (3, 3), 1), ("hex", (1, 0, 2, 0, 0, 2), (2, 1, 1), 2),
                         ("hcp", (1, 0, 1, 0, 0, 2), (2, 2), 1), ("dia", (1, 0, 1, 0, 1, 2), (1, 1, 2), 2)]:
        T.append(dict(fn="reach", args=dict(lat=lat, h=h, c=c, n=n, seeds=[rng.randrange(10 ** 6) for _ in range(150)])))
    return T


main("C11", dict(run=run, reach=reach, search=search), tasks,
     "a case is one request of one run; non-trivial when fewer structures are requested than exist; distinct by lattice, cell, composition, number, mode and seed")
