"""Structure records are self-consistent and read back unchanged."""
import random
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent, all_hnfs
from vlib import lattices
from vlib.enumcheck import arrow_counts
from vlib.run import scratch, enum, write_lattice, read_enum_out, quiet


def idet(M):
    a, b, c = [[int(x) for x in r] for r in M]
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def mul(A, B):
    return [[sum(int(A[i][k]) * int(B[k][j]) for k in range(3)) for j in range(3)] for i in range(3)]


def records(m, recs, k, nD, p, arrows, tag):
    last, cnt = None, 0
    for i, r in enumerate(recs):
        m.event("records-observed")
        d = dict(record=r.line, case=tag)
        m.check(r.num == i + 1, "serial", "record %d has the serial number %d" % (i + 1, r.num), **d)
        a, b, c, dd, e, f = r.hnf
        det = a * c * f
        m.check(min(a, c, f) > 0, "cell", "the cell %s has no positive volume" % (r.hnf,), **d)
        m.check(r.size == det, "size", "the stated size %d is not that of the cell %s" % (r.size, r.hnf), **d)
        if last is not None and r.size < last:
            m.violate("order", "sizes are not in ascending order", **d)
        cnt = cnt + 1 if r.size == last else 1
        last = r.size
        m.check(r.sizecount == cnt, "size-count", "structure %d of size %d carries the number %d" % (cnt, r.size, r.sizecount), **d)
        S = r.snf
        ok = min(S) > 0 and S[0] * S[1] * S[2] == det and S[1] % S[0] == 0 and S[2] % S[1] == 0
        m.check(ok, "diagonal", "the diagonal %s is not a Smith diagonal of volume %d" % (S, det), **d)
        L = r.L.tolist()
        m.check(abs(idet(L)) == 1, "transform", "the transform %s is not unimodular" % (L,), **d)
        if ok and abs(idet(L)) == 1:
            # R = (L H)^-1 S must be integer and unimodular: H R = L^-1 S, i.e. every row i of
            # L H is divisible by S_i
            LH = mul(L, [[a, 0, 0], [b, c, 0], [dd, e, f]])
            m.check(all(x % S[j] == 0 for j in range(3) for x in LH[j]), "smith",
                    "transform %s and diagonal %s are not a Smith decomposition of the cell %s" % (L, S, r.hnf), **d)
        N = det * nD
        m.check(len(r.lab) == N and len(r.dirs) == N, "length", "%d sites, but %d labels and %d directions" % (N, len(r.lab), len(r.dirs)), **d)
        m.check(all(ch.isdigit() and int(ch) < k for ch in r.lab), "label", "an undefined species in %s" % r.lab, **d)
        m.check(all(ch in "0123456" for ch in r.dirs) and (arrows or set(r.dirs) <= {"0"}), "direction", "an undefined direction in %s" % r.dirs, **d)


def header(m, h, p, B, k, sizes, concs, tag):
    A = np.array(h["A"])
    m.check(h["bulk"] == "bulk" and h["k"] == k and h["nD"] == len(B) and h["sizes"] == list(sizes), "header",
            "the header states %s, %d species, %d sites, sizes %s" % (h["bulk"], h["k"], h["nD"], h["sizes"]), case=tag)
    m.check(np.abs(A - p.A).max() < 1e-6, "header-lattice", "the header states the lattice %s" % h["A"], case=tag, lattice=p.A.tolist())
    if h["nD"] == len(B):
        df = (np.array(h["basis"]) - p.basis) @ p.Ainv
        m.check(np.abs(df - np.round(df)).max() < 1e-5, "header-basis", "the header states the sites %s for %s" % (h["basis"], p.basis.tolist()), case=tag)


def reader(m, path, h, recs, rng, tag):
    """what the program reads against what is in the file"""
    rd = resolve("phenum.io_utils:read_enum_out")
    n = len(recs)
    sel = [None]
    if n:
        sel += [[rng.randint(1, n)], sorted(rng.sample(range(1, n + 1), min(n, 3))), list(range(max(1, n - 3), n + 1)), [n]]
    for s in sel:
        with quiet():
            sysd, st = rd(dict(input=path, structures=None if s is None else list(s)))
        m.event("reads")
        want = recs if s is None else [recs[i - 1] for i in s]
        m.check([x["strN"] for x in st] == [r.num for r in want], "read-selection", "structures %s of %d were asked for, %s were read" % (
            s, n, [x["strN"] for x in st][:10]), case=tag)
        m.check(np.allclose(np.array(sysd["plattice"]).T, h["A"], atol=0) and np.array_equal(np.array(sysd["dvecs"]), np.array(h["basis"])) and sysd["nD"] == h["nD"] and
                sysd["k"] == h["k"], "read-header", "the header was read as %s" % {x: str(y) for x, y in sysd.items()}, case=tag)
        for x, r in zip(st, want):
            a, b, c, d, e, f = r.hnf
            m.check([list(map(int, v)) for v in x["HNF"]] == [[a, 0, 0], [b, c, 0], [d, e, f]] and list(x["diag"]) == r.snf and
                    np.array_equal(np.array(x["L"]), r.L) and x["labeling"] == r.lab and x["directions"] == r.dirs and x["n"] == r.size and x["sizeN"] == r.sizecount,
                    "read-record", "record %d was read differently" % r.num, case=tag, record=r.line, read=str(x))


def run(m, lat, sizes, k, concs, arrows, sup, reqs, seed, shuffled=False):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    tag = "%s sizes %s k=%d %s %s" % (lat, sizes, k, concs, arrows)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, concs, arrows)
        if reqs:
            with open("enum.in", "w") as f:
                f.write("# requests\n")
                for h, c, n in reqs:
                    f.write(" ".join(map(str, h)) + " " + " ".join(map(str, c)) + " %d\n" % n)
        enum(enum=True, super=sup, seed=seed)
        h, recs = read_enum_out("enum.out")
        header(m, h, p, B, k, sizes, concs, tag)
        records(m, recs, k, len(B), p, bool(arrows), tag)
        reader(m, "enum.out", h, recs, rng, tag)
        m.case((tag, sup, str(reqs)), nontrivial=len(recs) > 0)
        # a second enumeration into another file leaves the same records
        enum(enum=True, super=sup, seed=seed, outfile="other.out")
        x, y = open("enum.out").read().split("\n")[1:], open("other.out").read().split("\n")[1:]
        m.check(x == y, "rerun", "a second run wrote other records", case=tag)
    m.sample(dict(case=tag, records=len(recs), last=recs[-1].line if recs else None))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        for k, top in ((2, {1: 5, 2: 3, 3: 2, 4: 1, 5: 1}[nD]), (3, {1: 3, 2: 2, 3: 1, 4: 1, 5: 1}[nD])):
            if k == 3 and rng.random() < .5 and not big:
                continue
            T.append(dict(fn="run", args=dict(lat=lat, sizes=[rng.randint(1, top), top], k=k, concs=None, arrows=None, sup=rng.random() < .5, reqs=None, seed=rng.randrange(10 ** 6))))
    for lat in ["sc", "fcc", "bcc", "tet", "orth", "sc2", "dia", "gen2", "tri"]:
        k = rng.choice([1, 2])
        nD = len(lattices.get(lat)[1])
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 2 if nD == 1 else 1], k=k, concs=[[0, 1, 1]] * k, arrows=[rng.choice([.5, 1.]), 0.][:k], sup=rng.random() < .5, reqs=None, seed=rng.randrange(10 ** 6))))
    # large cells, sampled, sizes out of order
    for i in range(30 if not big else 500):
        lat = rng.choice(["fcc", "sc", "hex", "hcp", "tri", "mono", "dia", "out2", "gen3", lattices.random_parent(rng, nD=rng.choice([1, 2]))])
        nD = len(lattices.get(lat)[1])
        k = rng.choice([2, 3, 9])
        reqs = []
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([rng.randint(1, 6), rng.randint(7, 36)])
            h = rng.choice(all_hnfs(n))
            c = [0] * k
            while sum(c) < n * nD:
                c[rng.randrange(k)] += 1
            c.sort()
            from vlib.geom import n_states
            if 4000 < n_states(c) <= 100000:
                c = [0] * (k - 2) + [1, n * nD - 1]
            reqs.append([h, c, rng.randint(1, 3)])
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 36], k=k, concs=None, arrows=None, sup=rng.random() < .5, reqs=reqs, seed=rng.randrange(10 ** 6)), optional=i > 8))
    for i in range(20 if not big else 300):
        lat = lattices.random_parent(rng)
        nD = len(lat[1])
        top = {1: 4, 2: 2, 3: 2}[nD]
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, top], k=2, concs=rng.choice([None, [[0, 1, 2], [1, 2, 2]]]), arrows=None, sup=rng.random() < .5, reqs=None, seed=rng.randrange(10 ** 6)), optional=i > 6))
    return T


main("C13", dict(run=run), tasks,
     "a case is one recorded list; non-trivial when it holds at least one structure; distinct by crystal, sizes, species, mode")
