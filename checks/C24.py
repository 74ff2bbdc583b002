"""Completing generators yields exactly the group they generate."""
import random
from vlib.harness import main, resolve
from vlib.geom import Supercell, Parent, all_hnfs
from vlib import lattices


def compose(p, q):
    return tuple(p[x] for x in q)


def closure(gens, limit=6000):
    """all products of the generators (pairs of permutations); finite groups contain the identity and inverses"""
    seen = set(gens)
    todo = list(seen)
    while todo:
        x = todo.pop()
        for g in gens:
            y = tuple(compose(a, b) for a, b in zip(x, g))
            if y not in seen:
                seen.add(y)
                todo.append(y)
                if len(seen) > limit:
                    return None
    return seen


def freeze(g):
    return tuple(tuple(int(x) for x in p) for p in g)


def judge(m, what, got, want, gens, before, args):
    m.event("elements", len(got))
    m.case((what, gens), nontrivial=len(want) > 1)
    F = [freeze(g) for g in got]
    d = dict(generators=before)
    m.check(len(set(F)) == len(F), "repeated", "%s: %d of %d elements are repeated" % (what, len(F) - len(set(F)), len(F)), **d)
    m.check(not set(F) - want, "foreign", "%s: %d elements are not products of the generators" % (what, len(set(F) - want)), **d)
    m.check(not want - set(F), "missing", "%s: %d of %d elements are missing" % (what, len(want - set(F)), len(want)), **d)
    m.check(args == before, "arguments", "%s: the generators were changed" % what, **d)


def sites_arrows(m, cases):
    G = resolve("phenum.grouptheory:_group")
    for gens in cases:
        g = [freeze(x) for x in gens]
        want = closure(g)
        if want is None:
            continue
        args = [[list(p) for p in x] for x in g]
        before = [[list(p) for p in x] for x in g]
        judge(m, "site and direction permutations", G(args), want, g, before, args)
        m.event("groups")
    m.sample(dict(generators=cases[0]))


def sites(m, cases):
    G = resolve("phenum.polyaburnside:group")
    for gens in cases:
        g = [(tuple(x),) for x in gens]
        want = closure(g)
        if want is None:
            continue
        for base in (0, 1):
            args = [[e + base for e in x] for x in gens]
            before = [list(x) for x in args]
            got = G(args)
            judge(m, "site permutations counted from %d" % base, [[x] for x in got], want, (base, g), before, args)
            m.event("groups")


def products(m, cases):
    P, Q = resolve("phenum.grouptheory:a_group"), resolve("phenum.grouptheory:a_group_gen")
    for trans, rots in cases:
        args = [[list(t) for t in trans], [[list(p) for p in r] for r in rots]]
        before = [[list(t) for t in trans], [[list(p) for p in r] for r in rots]]
        prod = {(compose(r[0], t), tuple(r[1])) for t in trans for r in rots}
        judge(m, "products of translations and rotations", P(*args), prod, (trans, rots), before, args)
        want = closure(sorted(prod))
        if want is not None:
            judge(m, "group of translations and rotations", Q(*args), want, ("gen", trans, rots), before, args)
        m.event("products")


def crystal(m, lat, n, seed, arrows):
    """generators of a supercell's group and the whole group of the supercell"""
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    p = Parent(A, B)
    ar = arrows and p.axes_permuting()
    G, P = resolve("phenum.grouptheory:_group"), resolve("phenum.grouptheory:a_group")
    for h in rng.sample(all_hnfs(n), min(3, len(all_hnfs(n)))):
        sc = Supercell(p, h)
        ident = tuple(range(6))
        N = {(tuple(int(y) for y in t), tuple(int(y) for y in a) if a is not None else ident) for t, a in sc.group(ar)}
        tr = [(tuple(int(y) for y in t), ident) for t in sc.translations()]
        rots = sorted(N)
        # translations times a set of representatives is the group
        reps, covered = [], set()
        for r in rots:
            if r not in covered:
                reps.append(r)
                covered |= {(compose(r[0], t[0]), r[1]) for t in tr}
        args = [[list(t[0]) for t in tr], [[list(a) for a in r] for r in reps]]
        before = [[list(t[0]) for t in tr], [[list(a) for a in r] for r in reps]]
        judge(m, "cell %s: translations times rotations" % (h,), P(*args), N, (str(lat), h, "p"), before, args)
        gens = []
        while closure(gens) != N if gens else True:
            gens.append(rng.choice(rots))
        args = [[list(a) for a in g] for g in gens]
        before = [[list(a) for a in g] for g in gens]
        judge(m, "cell %s" % (h,), G(args), N, (str(lat), h, tuple(gens)), before, args)
        m.event("crystal-groups")


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def perm(n):
        x = list(range(n))
        kind = rng.random()
        if kind < .3:
            rng.shuffle(x)
        elif kind < .5 and n > 1:
            i, j = rng.sample(range(n), 2)
            x[i], x[j] = x[j], x[i]
        elif kind < .8:
            s = rng.randrange(n)
            x = x[s:] + x[:s]
        return x
    reps = 24 if not big else 120
    for i in range(reps):
        cases = []
        for _ in range(40):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8])
            d = rng.choice([1, 2, 3, 6])
            k = rng.choice([1, 1, 2, 2, 3, 4])
            g = [[perm(n), perm(d)] for _ in range(k)]
            if rng.random() < .15:
                g.append(g[0])
            if rng.random() < .2:
                g.insert(rng.randrange(len(g) + 1), [list(range(n)), list(range(d))])
            w = closure([freeze(x) for x in g], 400 if not big else 800)
            if w is not None:
                cases.append(g)
        T.append(dict(fn="sites_arrows", args=dict(cases=cases)))
        cases = []
        for _ in range(40):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
            g = [perm(n) for _ in range(rng.choice([1, 2, 2, 3]))]
            if closure([(tuple(x),) for x in g], 400 if not big else 800) is not None:
                cases.append(g)
        T.append(dict(fn="sites", args=dict(cases=cases)))
        cases = []
        for _ in range(30):
            n = rng.choice([1, 2, 3, 4, 6, 8])
            t = [perm(n) for _ in range(rng.randint(1, 4))]
            r = [[perm(n), perm(6)] for _ in range(rng.randint(1, 4))]
            if closure([(compose(y[0], x), tuple(y[1])) for x in t for y in r], 400) is not None:
                cases.append([t, r])
        T.append(dict(fn="products", args=dict(cases=cases)))
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        T.append(dict(fn="crystal", args=dict(lat=lat, n=rng.randint(2, 4 if nD == 1 else 2), seed=rng.randrange(10 ** 6), arrows=rng.random() < .5)))
    return T


main("C24", dict(sites_arrows=sites_arrows, sites=sites, products=products, crystal=crystal), tasks,
     "a case is one set of generators (or factors); non-trivial when the group has more than one element; distinct by the generators")
