"""Composition lists against exact rational arithmetic."""
from fractions import Fraction
from vlib.harness import main, resolve
from vlib.enumcheck import compositions, allowed
from vlib.run import scratch, enum, write_lattice, read_polya, quiet


def lists(m, cases):
    f = resolve("phenum.symmetry:get_concs_for_size")
    for size, k, nD, concs in cases:
        res = concs is not None
        given = [list(c) for c in concs] if res else []
        with quiet():
            got = [tuple(int(x) for x in c) for c in f(size, k, res, nD, given)]
        want = set(c for c in compositions(size * nD, k) if allowed(c, concs))
        m.event("compositions-observed", len(got))
        m.case((size, k, nD, str(concs)), nontrivial=0 < len(want))
        edge = res and any(Fraction(x, size * nD) in (Fraction(int(c[0]), int(c[2])), Fraction(int(c[1]), int(c[2]))) for w in want for x, c in zip(w, concs))
        m.event("with-composition-on-a-boundary", int(bool(edge)))
        tag = "%d cells of %d sites, %d species, ranges %s" % (size, nD, k, concs)
        m.check(len(got) == len(set(got)), "repeated", "%s: a composition is listed twice" % tag)
        m.check(not set(got) - want, "not-allowed", "%s: %s is not allowed" % (tag, sorted(set(got) - want)[:3]))
        m.check(not want - set(got), "missing", "%s: %s is missing" % (tag, sorted(want - set(got))[:3]))
        m.check(not res or given == [list(c) for c in concs], "input-modified", "%s: the ranges were modified" % tag)
    m.sample(dict(size=size, species=k, sites=nD, ranges=concs, compositions=len(got)))


def table(m, size, k, nD, concs):
    """the columns of the prediction table"""
    B = [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]][:nD]
    with scratch():
        write_lattice("lattice.in", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], B, [size, size], k, concs)
        enum(polya=True)
        cs, rows, last = read_polya("polya.out.%d" % size)
    want = sorted(c for c in compositions(size * nD, k) if allowed(c, concs))
    m.case(("table", size, k, nD, str(concs)), bool(want))
    m.event("tables")
    m.check(sorted(cs) == want, "table", "%d cells of %d sites, ranges %s: the table is for %s, allowed are %s" % (size, nD, concs, sorted(cs)[:5], want[:5]))


def ranges(rng, k, N):
    out = []
    for _ in range(k):
        den = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 30, 100, N, 3 * N])
        a, b = rng.randint(0, den), rng.randint(0, den)
        if rng.random() < .3:
            a = b
        if rng.random() < .3:
            a, b = 0, den
        if rng.random() < .8 and a > b:
            a, b = b, a
        out.append([a, b, den])
    return out


def tasks(tier, rng):
    T = []
    for i in range(24 if tier == "quick" else 200):
        cases = []
        for _ in range(40 if tier == "quick" else 150):
            nD = rng.choice([1, 1, 2, 3, 4])
            k = rng.choice([1, 2, 2, 3, 3, 4, 5])
            size = rng.randint(1, max(1, {1: 24, 2: 24, 3: 15, 4: 9, 5: 6}[k] // nD))
            concs = ranges(rng, k, size * nD) if rng.random() < .85 else None
            if concs is None and k > 3 and size * nD > 6:
                continue
            if concs is not None and rng.random() < .5:
                # make sure something is allowed
                w = [0] * k
                for _ in range(size * nD):
                    w[rng.randrange(k)] += 1
                N = size * nD
                concs = [[max(0, x - rng.randint(0, 1)), min(N, x + rng.randint(0, 1)), N] for x in w]
                q = rng.choice([1, 1, 2, 3])
                concs = [[a * q, b * q, d * q] for a, b, d in concs]
            if concs is not None and rng.random() < .35:
                # ranges that end just beside a possible composition
                N = size * nD
                for c in concs:
                    den = rng.choice([100, 1000, 1000, 10 ** 4, 10 ** 5, 10 ** 6])
                    c[0], c[1] = [min(den, max(0, den * x // c[2] + rng.choice([0, 1, 0, -1, 2]))) for x in c[:2]]
                    c[2] = den
            cases.append([size, k, nD, concs])
        T.append(dict(fn="lists", args=dict(cases=cases)))
    for i in range(8):
        nD = rng.choice([1, 2, 3])
        k = rng.choice([2, 3])
        size = rng.randint(1, 6 // nD)
        T.append(dict(fn="table", args=dict(size=size, k=k, nD=nD, concs=ranges(rng, k, size * nD))))
    T.append(dict(fn="table", args=dict(size=4, k=2, nD=1, concs=[[1, 2, 4], [1, 3, 6]])))
    return T


main("C09", dict(lists=lists, table=table), tasks,
     "a case is the list of one size and set of ranges; non-trivial when at least one composition is allowed; distinct by all arguments")
