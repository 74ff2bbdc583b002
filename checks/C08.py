"""Smith decomposition identities."""
import copy, itertools
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import all_hnfs, hnf_matrix
from vlib.run import quiet


def idet(M):
    M = [[int(x) for x in r] for r in M]
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def mul(P, Q):
    return [[sum(int(P[i][k]) * int(Q[k][j]) for k in range(3)) for j in range(3)] for i in range(3)]


def judge(m, f, H):
    arg = copy.deepcopy(H)
    with quiet():
        S, L, R = f(arg)
    S, L, R = [[list(r) for r in X] for X in (S, L, R)]
    m.event("decompositions")
    key = tuple(int(x) for r in H for x in r)
    d = [int(S[i][i]) for i in range(3)]
    m.case(key, nontrivial=d != [1, 1, abs(idet(H))] or any(H[i][j] for i in range(3) for j in range(3) if i != j))
    m.events["diagonals-with-%d-trivial-entries" % d.count(1)] = m.events.get("diagonals-with-%d-trivial-entries" % d.count(1), 0) + 1
    ok = m.check(arg == H, "input-modified", "%s was modified" % (H,))
    for X, n in ((S, "diagonal"), (L, "left transform"), (R, "right transform")):
        if any(int(x) != x for r in X for x in r):
            return m.violate("not-integer", "%s: %s is not integer" % (H, n))
    if any(S[i][j] for i in range(3) for j in range(3) if i != j):
        return m.violate("not-diagonal", "%s: %s is not diagonal" % (H, S))
    m.check(all(x > 0 for x in d), "not-positive", "%s: diagonal %s" % (H, d))
    m.check(d[0] and d[1] and d[1] % d[0] == 0 and d[2] % d[1] == 0, "no-divisibility", "%s: diagonal %s does not divide along" % (H, d))
    m.check(abs(idet(L)) == 1 and abs(idet(R)) == 1, "not-unimodular", "%s: transforms have determinants %d, %d" % (H, idet(L), idet(R)))
    m.check(mul(mul(L, H), R) == [[int(x) for x in r] for r in S], "wrong-product", "%s: transforms do not give %s" % (H, d), L=L, R=R)
    return d


def cells(m, n, stride, offset):
    f = resolve("phenum.grouptheory:SmithNormalForm")
    hs = all_hnfs(n)[offset::stride]
    for h in hs:
        d = judge(m, f, hnf_matrix(h).tolist())
    m.sample(dict(volume=n, cell=h, diagonal=d))


def general(m, seed, count, size):
    import random
    rng = random.Random(seed)
    f = resolve("phenum.grouptheory:SmithNormalForm")
    got = 0
    while got < count:
        M = [[rng.randint(-size, size) for _ in range(3)] for _ in range(3)]
        if rng.random() < .4:
            q = rng.choice([2, 2, 3, 4, 6])
            M = [[x * q if rng.random() < .7 else x for x in r] for r in M]
        if idet(M) < 1:
            M[0] = [-x for x in M[0]]
            if idet(M) < 1:
                continue
        got += 1
        d = judge(m, f, M)
    m.sample(dict(matrix=M, diagonal=d))


def singular(m):
    f = resolve("phenum.grouptheory:SmithNormalForm")
    for M in ([[1, 0, 0], [0, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 3], [2, 4, 6], [1, 0, 1]],
              [[1.5, 0, 0], [0, 2, 0], [0, 0, 2]], [[1, 0, 0], [0, 2.25, 0], [0, 0, 3]]):
        try:
            f([list(r) for r in M])
        except ValueError:
            m.event("refusals")
            m.case(("refused", str(M)), True)
        else:
            m.violate("accepted", "%s has no decomposition but was accepted" % (M,))


def tasks(tier, rng):
    T = [dict(fn="singular", args={})]
    top = 24 if tier == "quick" else 64
    for n in range(1, top + 1):
        tot = len(all_hnfs(n))
        stride = max(1, tot // (1200 if tier == "quick" else 4000))
        T.append(dict(fn="cells", args=dict(n=n, stride=stride, offset=rng.randrange(stride))))
    for n in ([32, 36, 48, 64, 72, 81, 96, 100, 108, 125, 144] if tier == "quick" else [96, 108, 128, 144, 180, 210, 216, 256, 360]):
        tot = len(all_hnfs(n))
        stride = max(1, tot // 250)
        T.append(dict(fn="cells", args=dict(n=n, stride=stride, offset=rng.randrange(stride))))
    for i in range(40 if tier == "quick" else 120):
        T.append(dict(fn="general", args=dict(seed=rng.randrange(10 ** 9), count=250 if tier == "quick" else 1500, size=rng.choice([2, 3, 5, 8, 12])), optional=i > 6))
    return T


main("C08", dict(cells=cells, general=general, singular=singular), tasks,
     "a case is one decomposed matrix; non-trivial when it is not already diagonal with trivial entries; distinct by matrix")
