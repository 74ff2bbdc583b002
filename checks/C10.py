"""Distribution of a requested number of structures: conservation, limits, filters."""
import os, random
from vlib.harness import main
from vlib import lattices
from vlib.run import scratch, enum, makestr, write_lattice, read_polya, read_enum_in, CodeExit


def write_table(path, concs, rows):
    """a prediction table in the program's own format"""
    with open(path, "w") as f:
        f.write('{0: <28}'.format("# HNF"))
        for c in concs:
            f.write("{0: <50}".format(':'.join(map(str, c))))
        f.write('{0: <50}\n'.format("Total"))
        tot = [0] * len(concs)
        for h, counts in rows:
            f.write("  {0: <26}".format(' '.join(map(str, h))))
            for i, x in enumerate(counts):
                f.write("{0: <50d}".format(x))
                tot[i] += x
            f.write('{0: <10d}\n'.format(sum(counts)))
        f.write("# ---\n")
        f.write("{0: <28}".format("  0 0 0 0 0 0"))
        for x in tot:
            f.write("{0: <50d}".format(x))
        f.write("{0: <50d}\n".format(sum(tot)))


def read_dist(path, kind):
    out = {}
    rep = []
    with open(path) as f:
        for l in f:
            if l.startswith("#") or not l.strip():
                continue
            v = [int(x) for x in l.split()]
            key = {"all": lambda: (tuple(v[:6]), tuple(v[6:-1])), "shape": lambda: tuple(v[:6]),
                   "conc": lambda: (v[0], tuple(v[1:-1])), "size": lambda: v[0]}[kind]()
            if key in out:
                rep.append(key)
            out[key] = out.get(key, 0) + v[-1]
    return out, rep


def limits(tabs, sizes, kind, restrict):
    """available structures per entry"""
    out = {}
    for s in sizes:
        concs, rows, last = tabs[s]
        for h, counts, total in rows:
            if restrict and restrict[0] == "shape" and h not in restrict[1]:
                continue
            for c, x in zip(concs, counts):
                if restrict and restrict[0] == "conc" and c not in restrict[1]:
                    continue
                key = {"all": (h, c), "shape": h, "conc": (s, c), "size": s}[kind]
                out[key] = out.get(key, 0) + x
    return out


def judge(m, tabs, sizes, window, kind, n, seed, restrict, tag):
    # a restriction file has the layout of the requests: six numbers of the cell, or a size
    # (or any word), the composition and a number
    if restrict:
        with open("restrict.txt", "w") as f:
            f.write("# restriction\n")
            for x in restrict[1]:
                if restrict[0] == "shape":
                    f.write(" ".join(map(str, x)) + "  1\n")
                else:
                    f.write("%d  %s  1\n" % (sum(x), " ".join(map(str, x))))
    if os.path.exists("dist.out"):
        os.remove("dist.out")
    enum(distribution=[kind, str(n)], outfile="dist.out", savedist=True, seed=seed,
         sizes=window, filter=[restrict[0], "restrict.txt"] if restrict else None)
    used = [s for s in sizes if window is None or window[0] <= s < window[1]]
    lim = limits(tabs, used, kind, restrict)
    total = sum(lim.values())
    want = total if n == "all" else min(int(n), total)
    got, rep = read_dist("dist.out", kind)
    m.event("entries-observed", len(got))
    m.event("structures-assigned", sum(got.values()))
    m.case((tag, tuple(used), kind, n, seed, str(restrict)), nontrivial=want > 0)
    d = dict(kind=kind, n=n, seed=seed, window=window, restrict=restrict, case=tag)
    m.check(not rep, "repeated-entry", "entry %s is listed twice" % rep[:1], **d)
    m.check(sum(got.values()) == want, "total", "%s structures were requested (%d available), %d were assigned" % (n, total, sum(got.values())), **d)
    for k, v in got.items():
        if k not in lim:
            m.violate("foreign-entry", "entry %s is not allowed" % (k,), **d)
            break
        if v > lim[k] or v <= 0:
            m.violate("limit", "entry %s is assigned %d of %d available" % (k, v, lim[k]), **d)
            break
    if want == total:
        m.check(all(got.get(k, 0) == v for k, v in lim.items()), "not-everything", "everything was requested but an entry is not complete", **d)


def run(m, source, sizes, trials, seed, k=2, concs=None, arrows=None):
    rng = random.Random(seed)
    with scratch():
        if isinstance(source, str):
            A, B = lattices.get(source)
            write_lattice("lattice.in", A, B, [min(sizes), max(sizes)], k, concs, arrows)
            enum(polya=True)
            tabs = {s: read_polya("polya.out.%d" % s) for s in sizes}
        else:
            tabs = {}
            order = list(sizes)
            rng.shuffle(order)
            for s in order:
                cs, rows = source[str(s)]
                write_table("polya.out.%d" % s, cs, rows)
                tabs[s] = read_polya("polya.out.%d" % s)
        tag = source if isinstance(source, str) else "synthetic %d" % seed
        grand = sum(t[2][2] for t in tabs.values())
        for _ in range(trials):
            kind = rng.choice(["all", "all", "shape", "conc", "size"])
            restrict = None
            x = rng.random()
            if x < .2:
                hs = [r[0] for t in tabs.values() for r in t[1]]
                restrict = ["shape", rng.sample(hs, rng.randint(1, len(hs)))]
            elif x < .45:
                cs = [c for t in tabs.values() for c in t[0]]
                restrict = ["conc", rng.sample(cs, rng.randint(1, len(cs)))]
            window = None
            # a size window lists consecutive sizes, all of which need their table
            if rng.random() < .3 and sizes == list(range(min(sizes), max(sizes) + 1)):
                lo = rng.choice(sizes)
                window = [lo, rng.randint(lo + 1, max(sizes) + 1)]
            n = rng.choice(["all", 1, 2, 3, 5, 10, rng.randint(1, max(1, grand)), rng.randint(1, max(1, grand)),
                            max(1, grand - 1), max(1, grand), grand + 7, rng.randint(1, max(1, min(grand, 60)))])
            judge(m, tabs, sizes, window, kind, n, rng.choice([None, rng.randint(0, 10 ** 6)]), restrict, tag)
    m.sample(dict(source=tag, sizes=sizes, available=grand, last=dict(kind=kind, n=n, window=window, filtered=bool(restrict))))


def synthetic(rng):
    sizes = sorted(rng.sample(range(1, rng.choice([12, 12, 130])), rng.randint(1, 4)))
    out = {}
    k = rng.choice([2, 3, 3, 4, 6, 7, 9])
    for s in sizes:
        cs = set()
        for _ in range(rng.randint(1, 6)):
            cuts = sorted(rng.randint(0, s) for _ in range(k - 1))
            cs.add(tuple(b - a for a, b in zip([0] + cuts, cuts + [s])))
        hs = set()
        for _ in range(rng.randint(1, 6)):
            hs.add((1, 0, 1, rng.randint(0, s - 1), rng.randint(0, s - 1), s))
        big = rng.choice([1, 3, 40, 1000, 10 ** 6, 10 ** 12])
        rows = [(h, [rng.choice([0, 1, rng.randint(0, big), rng.randint(0, big)]) for _ in cs]) for h in sorted(hs)]
        if not any(sum(r[1]) for r in rows):
            rows[0][1][0] = 1
        out[str(s)] = [sorted(cs), rows]
    return sizes, out


def tasks(tier, rng):
    T = []
    tr = 40 if tier == "quick" else 300
    for lat, sizes, k, concs, arrows in [
            ("fcc", [1, 2, 3, 4, 5, 6], 2, None, None), ("bcc", [1, 2, 3, 4], 3, None, None), ("hex", [2, 3, 4], 2, None, None),
            ("sc", [1], 2, None, None), ("sc", [4], 1, None, None), ("fcc", [10, 11], 2, None, None), ("dia", [1, 2, 3], 2, None, None),
            ("tri", [4], 3, [[1, 2, 4], [0, 1, 3], [1, 1, 2]], None), ("sc", [1, 2, 3], 2, [[0, 1, 1]] * 2, [0.5, 1.0]),
            ("fcc", [3, 4], 2, [[1, 1, 4], [3, 3, 4]], None), ("fcc", [1, 2, 3], 7, None, None), ("hcp", [1, 2], 6, None, None)]:
        T.append(dict(fn="run", args=dict(source=lat, sizes=sizes, trials=tr, seed=rng.randrange(10 ** 6), k=k, concs=concs, arrows=arrows)))
    for i in range(40 if tier == "quick" else 400):
        sizes, src = synthetic(rng)
        T.append(dict(fn="run", args=dict(source=src, sizes=sizes, trials=tr, seed=rng.randrange(10 ** 6)), optional=i > 12))
    return T


main("C10", dict(run=run), tasks,
     "a case is one distribution request; non-trivial when at least one structure is assigned; distinct by tables, sizes, kind, number, seed and filter")
