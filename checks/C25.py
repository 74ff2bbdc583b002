"""However the work is divided into stages and parts, the structures are the same."""
import os, random
from collections import Counter
from vlib.harness import main
from vlib.geom import Parent, all_hnfs
from vlib import lattices, enumcheck
from vlib.run import scratch, enum, write_lattice, read_enum_out, read_enum_in, read_polya


def recs_of(path="enum.out"):
    h, recs = read_enum_out(path)
    return Counter((r.size, r.hnf, tuple(r.snf), tuple(r.L.ravel().tolist()), r.lab, r.dirs) for r in recs)


def body(path):
    with open(path) as f:
        return f.read().split("\n", 1)[1]


def diff(a, b):
    return "%d only in the first, %d only in the second: %s %s" % (sum((a - b).values()), sum((b - a).values()), sorted(a - b)[:2], sorted(b - a)[:2])


def run(m, lat, top, k, concs, arrows, sup, seed):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    tag = "%s, sizes 1 to %d: " % (lat, top)

    def lattice(sizes=(1, top), c=concs, a=arrows):
        write_lattice("lattice.in", A, B, list(sizes), k, c, a)
    with scratch():
        lattice()
        enum(enum=True, super=sup)
        whole = recs_of()
        text = body("enum.out")
        m.event("structures", sum(whole.values()))
        tables = {n: open("polya.out.%d" % n).read() for n in range(1, top + 1)}
        reqtext = open("enum.in").read()
        requests = read_enum_in("enum.in")
    nontrivial = len(whole) > 1

    def case(kind, extra=None):
        m.event(kind)
        m.case((str(lat), top, k, concs, arrows, sup, kind, extra), nontrivial=nontrivial)

    # one stage after the other
    with scratch():
        lattice()
        enum(polya=True)
        m.check(all(open("polya.out.%d" % n).read() == tables[n] for n in tables), "tables", tag + "the tables counted beforehand differ from those counted on the way")
        enum(distribution=["all", "all"])
        m.check(open("enum.in").read() == reqtext, "requests", tag + "the requests made beforehand differ from those made on the way")
        enum(enum=True, super=sup)
        m.check(body("enum.out") == text, "staged", tag + "counting, distributing and enumerating in turn gives other structures: " + diff(whole, recs_of()))
        case("staged")
        # other file names
        enum(polya=True, outfile="count")
        enum(distribution=["all", "all"], input="count", outfile="ask.txt")
        enum(enum=True, super=sup, input="ask.txt", outfile="found")
        m.check(body("found") == text, "renamed", tag + "with other file names the structures differ: " + diff(whole, recs_of("found")))
        case("renamed")
    # a part of the sizes at a time
    if top > 1:
        cuts = sorted(rng.sample(range(1, top), rng.randint(1, top - 1)))
        parts = list(zip([1] + [c + 1 for c in cuts], cuts + [top]))
        got = Counter()
        for a, b in parts:
            with scratch():
                lattice((a, b))
                enum(polya=True)
                m.check(sorted(x for x in os.listdir(".") if x.startswith("polya")) == sorted("polya.out.%d" % n for n in range(a, b + 1)), "part-tables",
                        tag + "counting sizes %d to %d writes %s" % (a, b, os.listdir(".")))
                m.check(all(open("polya.out.%d" % n).read() == tables[n] for n in range(a, b + 1)), "part-tables", tag + "the tables of sizes %d to %d depend on the range" % (a, b))
                enum(enum=True, super=sup)
                x = recs_of()
                m.check(all(a <= r[0] <= b for r in x), "part-sizes", tag + "enumerating sizes %d to %d gives other sizes" % (a, b))
                got += x
        m.check(got == whole, "sizes-split", tag + "in the parts %s: %s" % (parts, diff(whole, got)))
        case("sizes-split", parts)
        # the same through a size window over all tables
        got = Counter()
        for a, b in parts:
            with scratch():
                lattice()
                for n in tables:
                    with open("polya.out.%d" % n, "w") as f:
                        f.write(tables[n])
                enum(distribution=["all", "all"], sizes=[a, b + 1])
                enum(enum=True, super=sup)
                got += recs_of()
        m.check(got == whole, "window", tag + "with size windows %s: %s" % (parts, diff(whole, got)))
        case("window", parts)
    # the requests in another order, and a part at a time
    if len(requests) > 1:
        q = list(requests)
        rng.shuffle(q)
        cut = rng.randint(1, len(q) - 1)
        row = lambda r: " ".join(map(str, r[0] + r[1] + (r[2],)))
        with scratch():
            lattice()
            with open("enum.in", "w") as f:
                f.write("\n".join(row(r) for r in q) + "\n")
            enum(enum=True, super=sup)
            got = recs_of()
            m.check(got == whole, "shuffled", tag + "with the requests in another order: " + diff(whole, got))
            nums = [(r.num, r.size) for r in read_enum_out("enum.out")[1]]
            m.check([x[0] for x in nums] == list(range(1, len(nums) + 1)) and [x[1] for x in nums] == sorted(x[1] for x in nums), "order", tag + "the list is not numbered through the sizes")
            case("shuffled", seed)
        got = Counter()
        for part in (q[:cut], q[cut:]):
            with scratch():
                lattice()
                with open("enum.in", "w") as f:
                    f.write("# part\n" + "\n".join(row(r) for r in part) + "\n")
                enum(enum=True, super=sup)
                got += recs_of()
        m.check(got == whole, "requests-split", tag + "with the requests in two parts: " + diff(whole, got))
        case("requests-split", seed)
    # restricting the compositions selects from the whole
    N = lambda r: r[0] * len(B)
    sub = []
    for _ in range(k):
        den = rng.choice([1, 2, 3, 4])
        sub.append(sorted([rng.randint(0, den), rng.randint(0, den)]) + [den])
    cnt = lambda r: tuple(r[4].count(str(i)) for i in range(k))
    with scratch():
        lattice(c=sub)
        enum(enum=True, super=sup)
        got = recs_of()
    with scratch():
        lattice(c=[[0, 1, 1]] * k)
        enum(enum=True, super=sup)
        ref = Counter({r: n for r, n in recs_of().items() if enumcheck.allowed(cnt(r), sub)})
    m.check(got == ref, "restricted", tag + "restricting to %s does not select from the whole: %s" % (sub, diff(ref, got)))
    case("restricted", sub)
    # displacing nothing
    if not arrows or not any(arrows):
        with scratch():
            lattice(c=concs or [[0, 1, 1]] * k, a=[0.0] * k)
            enum(enum=True, super=sup)
            m.check(recs_of() == whole, "nothing-displaced", tag + "displacing nothing changes the structures: " + diff(whole, recs_of()))
            case("nothing-displaced")
    m.sample(dict(lattice=lat, sizes=[1, top], species=k, concs=concs, displaced=arrows, structures=sum(whole.values())))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def add(lat, optional=False, k=None):
        A, B = lattices.get(lat)
        nD = len(B)
        k = k or rng.choice([2, 2, 3])
        concs = arrows = None
        if rng.random() < .3:
            concs = [sorted([rng.randint(0, 4), rng.randint(0, 4)]) + [4] for _ in range(k)]
        if rng.random() < .3 and Parent(A, B).axes_permuting():
            arrows = [rng.choice([0, .5, 1.]) for _ in range(k)]
            concs = concs or [[0, 1, 1]] * k
        n = {1: 6, 2: 4, 3: 2}.get(nD, 2)
        lim = 1200 if not big else 30000
        w = lambda n: enumcheck.work(n * nD, k, [[0, 1, 1]] * k, arrows) * len(all_hnfs(n))
        while n > 1 and w(n) > lim:
            n -= 1
        if w(n) > 4 * lim:
            return
        T.append(dict(fn="run", args=dict(lat=lat, top=n, k=k, concs=concs, arrows=arrows, sup=rng.random() < .5, seed=rng.randrange(10 ** 6)), optional=optional))
    for lat in lattices.LIB:
        for _ in range(1 if not big else 6):
            add(lat)
    # many species in small cells
    for k, lat in zip((6, 7, 8, 9), rng.sample(["fcc", "bcc", "sc", "hex", "tri", "mono"], 4)):
        add(lat, k=k)
    for i in range(16 if not big else 300):
        add(lattices.random_parent(rng), i > 8)
    return T


main("C25", dict(run=run), tasks,
     "a case is one way to divide one enumeration; non-trivial when there are several structures; distinct by crystal, request and division")
