"""Numbering colourings and directions, and reconstructing them, are inverse bijections."""
import math, random
import numpy as np
from vlib.harness import main, resolve


def colourings(counts):
    """all colourings with colours 1..k"""
    from itertools import combinations
    n = sum(counts)
    out = [[0] * n]
    for i, c in enumerate(counts):
        new = []
        for x in out:
            free = [s for s in range(n) if x[s] == 0]
            for t in combinations(free, c):
                y = list(x)
                for s in t:
                    y[s] = i + 1
                new.append(y)
        out = new
    return out


def levels(col, k):
    """the binary strings of a colouring, level by level: sites of this colour among those not yet coloured"""
    return [[1 if c == i + 1 else 0 for c in col if c > i] for i in range(k)]


def exhaustive(m, counts):
    H, I, C = resolve("phenum.tree:_hash"), resolve("phenum.tree:_invhash"), resolve("phenum.tree:_coefficients")
    n, k = sum(counts), len(counts)
    rest = n
    want = []
    for c in counts:
        want.append(math.comb(rest, c))
        rest -= c
    radix = [int(x) for x in C(list(counts), n)]
    m.check(radix == want, "radix", "the numbers of choices per level of %s are %s instead of %s" % (counts, radix, want))
    cols = colourings(counts)
    seen = {}
    for col in cols:
        b = []
        for l in levels(col, k):
            before = list(l)
            b.append(int(H(l)))
            m.check(l == before, "argument", "numbering changed its argument %s" % before)
        m.event("numbered")
        if any(not 0 <= x < r for x, r in zip(b, want)):
            m.violate("range", "colouring %s has the number %s, not below %s" % (col, b, want))
            continue
        other = seen.setdefault(tuple(b), col)
        m.check(other is col, "collision", "colourings %s and %s have the same number %s" % (other, col, b))
        back = [int(x) for x in I(list(b), list(counts), n)]
        m.event("reconstructed")
        m.check(back == col, "round-trip", "colouring %s has the number %s which is reconstructed as %s" % (col, b, back))
        for j in range(k):
            part = [int(x) for x in I(list(b[:j]), list(counts), n)]
            m.check(part == [c if c <= j else 0 for c in col], "partial", "the first %d levels of %s are reconstructed as %s" % (j, col, part))
    m.check(len(seen) == math.prod(want), "surjective", "%d numbers are used by the %d colourings of %s" % (len(seen), math.prod(want), counts))
    m.case(("ex", counts), nontrivial=len(cols) > 1)
    m.sample(dict(counts=counts, colourings=len(cols)))


def batch(m, counts):
    for c in counts:
        exhaustive(m, c)


def sampled(m, cases, seed):
    rng = random.Random(seed)
    H, I, C = resolve("phenum.tree:_hash"), resolve("phenum.tree:_invhash"), resolve("phenum.tree:_coefficients")
    for counts in cases:
        n, k = sum(counts), len(counts)
        want, rest = [], n
        for c in counts:
            want.append(math.comb(rest, c))
            rest -= c
        radix = C(list(counts), n)
        m.check([int(x) for x in radix] == want, "radix", "the numbers of choices per level of %s are %s instead of %s" % (counts, radix, want))
        col = [i + 1 for i, c in enumerate(counts) for _ in range(c)]
        for _ in range(4):
            rng.shuffle(col)
            b = [int(H(l)) for l in levels(col, k)]
            m.check(all(0 <= x < r for x, r in zip(b, want)), "range", "colouring %s has the number %s, not below %s" % (col, b, want))
            m.check([int(x) for x in I(list(b), list(counts), n)] == col, "round-trip", "colouring %s of %s is not reconstructed from %s" % (col, counts, b))
            m.event("numbered")
            b = [rng.choice([0, r - 1, rng.randrange(r)]) for r in want]
            y = [int(x) for x in I(list(b), list(counts), n)]
            m.event("reconstructed")
            ok = [y.count(i + 1) for i in range(k)] == list(counts)
            m.check(ok, "composition", "number %s is reconstructed with another composition than %s: %s" % (b, counts, y))
            if ok:
                m.check([int(H(l)) for l in levels(y, k)] == b, "round-trip", "number %s of %s becomes another number after reconstruction" % (b, counts))
            m.case((counts, b), nontrivial=True)


def directions(m, cases, seed):
    rng = random.Random(seed)
    A, V = resolve("phenum.phonons:_ahash"), resolve("phenum.phonons:_ainvhash")
    for n, dim in cases:
        top = dim ** n
        full = top <= 1500
        seen = set()
        for x in (range(top) if full else sorted(set([0, 1, top - 1] + [rng.randrange(top) for _ in range(60)]))):
            a = [int(y) for y in V(x, n, dim)]
            m.event("direction-numbers")
            ok = len(a) == n and all(0 <= y < dim for y in a)
            m.check(ok, "directions", "number %d for %d arrows becomes %s" % (x, n, a))
            seen.add(tuple(a))
            back = A(list(a), dim)
            m.check(back == x, "direction-round-trip", "number %d becomes %s and then %s" % (x, a, back))
        if full:
            m.check(len(seen) == top, "direction-bijection", "%d of %d arrangements of %d directions are reached" % (len(seen), top, n))
        for _ in range(20):
            a = [rng.randrange(dim) for _ in range(n)]
            x = A(list(a), dim)
            m.check(0 <= x < top and list(V(x, n, dim)) == a, "direction-round-trip", "directions %s become number %s and then %s" % (a, x, V(x, n, dim)))
        m.check(A([dim - 1] * n, dim) == top - 1, "direction-last", "the last of %d directions has number %s" % (n, A([dim - 1] * n, dim)))
        m.case(("dir", n, dim), nontrivial=n > 0)


def numbers(m, seed, count):
    rng = random.Random(seed)
    b, mu, fa = resolve("phenum.numerics:binomial_coefficient"), resolve("phenum.numerics:multinomial"), resolve("phenum.numerics:factorial")

    def choose(n, k):
        return math.comb(n, k) if 0 <= k <= n else 0
    for n in range(40):
        m.check(fa(n) == math.factorial(n), "factorial", "%d! is %s" % (n, fa(n)))
        for k in range(-2, n + 3):
            m.event("binomials")
            m.check(b(n, k) == choose(n, k), "binomial", "%d choose %d is %s" % (n, k, b(n, k)))
    for _ in range(count):
        n = rng.choice([50, 67, 100, 300, 1000])
        k = rng.randint(0, n)
        T = rng.choice([int, np.int64, np.int32])
        m.event("binomials")
        r = b(T(n), T(k))
        m.check(int(r) == choose(n, k), "binomial", "%d choose %d is %s" % (n, k, r))
        m.case(("binomial", n, k))
        v = [rng.choice([0, 1, 2, 5, 9, 30]) for _ in range(rng.randint(1, 6))]
        want = math.factorial(sum(v)) // math.prod(math.factorial(x) for x in v)
        r = mu([T(x) for x in v])
        m.event("multinomials")
        m.check(int(r) == want, "multinomial", "the multinomial of %s is %s" % (v, r))
        m.case(("multinomial", v))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    top = 9 if big else 8

    def parts(n, k):
        if k == 1:
            yield [n]
            return
        for x in range(1, n - k + 2):
            for r in parts(n - x, k - 1):
                yield [x] + r
    cs = [p for n in range(1, top + 1) for k in range(1, min(n, 4 if n > 6 else 5) + 1) for p in parts(n, k)]
    cs = [c for c in cs if math.factorial(sum(c)) // math.prod(math.factorial(x) for x in c) <= (3000 if big else 900)]
    rng.shuffle(cs)
    for i in range(0, len(cs), 20):
        T.append(dict(fn="batch", args=dict(counts=cs[i:i + 20])))
    for i in range(6 if not big else 100):
        cases = [[rng.randint(1, rng.choice([3, 10, 30])) for _ in range(rng.randint(1, 7))] for _ in range(50)]
        T.append(dict(fn="sampled", args=dict(cases=cases, seed=rng.randrange(10 ** 6))))
    dirs = [[n, d] for n in range(0, 7) for d in (1, 2, 3, 6)] + [[rng.randint(7, 40), rng.choice([2, 6, 6])] for _ in range(30)]
    for i in range(0, len(dirs), 10):
        T.append(dict(fn="directions", args=dict(cases=dirs[i:i + 10], seed=rng.randrange(10 ** 6))))
    T.append(dict(fn="numbers", args=dict(seed=rng.randrange(10 ** 6), count=300 if not big else 20000)))
    return T


main("C22", dict(batch=batch, sampled=sampled, directions=directions, numbers=numbers), tasks,
     "a case is a composition numbered exhaustively, a large sampled colouring, a number of directions or a coefficient; non-trivial with more than one colouring; distinct by its numbers")
