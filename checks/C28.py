"""The layout of an input file does not change what it means."""
import os, random
from vlib.harness import main
from vlib.geom import Parent
from vlib import lattices, enumcheck
from vlib.crystal import sample_requests
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out

TITLES = ["# Which cell-sizes do you want to search?", "# Bulk or surface?", "#lattice", "   # indented", "#", "# T", "# 1 2 3", "#F", "# bulk"]


def number(rng, x, integer):
    """another way to write the same number; floats keep their exact value"""
    if integer:
        return rng.choice(["%d", "%d", "+%d"]) % int(x) if int(x) >= 0 else "%d" % int(x)
    s = repr(float(x))
    c = [s, s, "%.17e" % float(x)]
    if float(x) == int(x):
        c += ["%d" % x, "%d." % x, "%.4f" % x]
    elif s.startswith("0.") and "e" not in s:
        c.append(s[1:])
    elif s.startswith("-0.") and "e" not in s:
        c.append("-" + s[2:])
    c = [y for y in c if float(y) == float(x)]
    return rng.choice(c)


def lay_out(rng, rows, comments=True, blank=True, crlf=True, final=True):
    """rows: lists of words"""
    out = []
    style = rng.choice(["plain", "loose", "loose", "tabs"])
    for r in rows:
        while comments and rng.random() < .35:
            out.append(rng.choice(TITLES))
        while blank and rng.random() < .2:
            out.append(rng.choice(["", "", "   ", "\t"]))
        if style == "plain":
            out.append(" ".join(r))
        else:
            seps = [" ", "  ", "     "] if style == "loose" else ["\t", " \t", "\t\t"]
            out.append(rng.choice(["", "", " ", "\t" if style == "tabs" else "   "]) + "".join(w + rng.choice(seps) for w in r[:-1]) + r[-1] + rng.choice(["", "", " ", "  "]))
    while comments and rng.random() < .3:
        out.append(rng.choice(TITLES))
    while blank and rng.random() < .3:
        out.append("")
    nl = "\r\n" if crlf and rng.random() < .15 else "\n"
    return nl.join(out) + (nl if not final or rng.random() < .7 else "")


def lattice_rows(rng, A, B, sizes, k, concs, arrows):
    I = lambda x: number(rng, x, True)
    F = lambda x: number(rng, x, False)
    rows = [[I(s) for s in sizes], [rng.choice(["bulk", "bulk", "Bulk", "BULK", "b"])]]
    rows += [[F(x) for x in v] for v in A]
    rows += [["%d" % k], ["%d" % len(B)]]
    rows += [[F(x) for x in v] for v in B]
    if concs is None:
        rows.append(["F"])
        if rng.random() < .3:       # the rest of the file plays no part then
            rows += [["T"], ["0", "1", "1"]]
    else:
        rows += [["T"], ["T" if arrows is not None else "F"]]
        for i, c in enumerate(concs):
            rows.append([I(x) for x in c] + ([F(arrows[i])] if arrows is not None else []))
    return rows


def body(path):
    with open(path) as f:
        return f.read().split("\n", 1)[1]


def put(path, text):
    with open(path, "w", newline="") as f:
        f.write(text)


def results(kind, sup):
    """everything the run left behind, without the time stamp"""
    out = {}
    for x in sorted(os.listdir(".")):
        if x in ("lattice.in", "list.in", "filter"):
            continue
        with open(x) as f:
            t = f.read()
        out[x] = t.split("\n", 1)[1] if x == "enum.out" else t
    return out


def compare(m, tag, a, b, text, key):
    m.check(sorted(a) == sorted(b), key, "%s: other files are written: %s and %s" % (tag, sorted(a), sorted(b)), layout=text)
    for x in a:
        if x in b and a[x] != b[x]:
            la, lb = a[x].split("\n"), b[x].split("\n")
            i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
            m.violate(key, "%s: %s differs: line %d is %r instead of %r" % (tag, x, i + 1, lb[i:i + 1], la[i:i + 1]), layout=text)


def lattice(m, lat, top, k, concs, arrows, sup, seed, variants):
    rng = random.Random(seed)
    A, B = lattices.get(lat)

    def go():
        enum(enum=True, super=sup)
        return results("lattice", sup)
    with scratch():
        write_lattice("lattice.in", A, B, [1, top], k, concs, arrows)
        ref = go()
    for v in range(variants):
        text = lay_out(rng, lattice_rows(rng, A, B, [1, top], k, concs, arrows))
        with scratch():
            put("lattice.in", text)
            got = go()
            m.event("lattice-files")
            m.check(open("lattice.in", newline="").read() == text, "input-altered", "%s: lattice.in was altered" % lat)
            compare(m, "%s, lattice.in in another layout" % lat, ref, got, text, "lattice")
            m.case(("lattice", str(lat), text), nontrivial=ref["enum.out"].count("\n") > 16)
    m.sample(dict(lattice=lat, layout=text))


def requests(m, lat, reqs, k, seed, variants):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    rows = [[str(x) for x in list(h) + list(c) + [n]] for h, c, n in reqs]
    with scratch():
        write_lattice("lattice.in", A, B, [1, 9], k)
        put("list.in", "\n".join(" ".join(r) for r in rows) + "\n")
        enum(enum=True, input="list.in", super=True, seed=seed)
        ref = results("requests", True)
    for v in range(variants):
        text = lay_out(rng, rows)
        if rng.random() < .3:
            text = text.rstrip("\r\n") + "   # remark\n"
        with scratch():
            write_lattice("lattice.in", A, B, [1, 9], k)
            put("list.in", text)
            enum(enum=True, input="list.in", super=True, seed=seed)
            m.event("request-files")
            compare(m, "%s, requests in another layout" % lat, ref, results("requests", True), text, "requests")
            m.check(open("list.in", newline="").read() == text, "input-altered", "%s: the requests were altered" % lat)
            m.case(("requests", str(lat), text), nontrivial=len(rows) > 1)


def pictures(m, lat, reqs, k, seed):
    """the list of cells to draw"""
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    import matplotlib
    matplotlib.use("Agg")
    matplotlib.use = lambda *a, **k: None       # no window system is needed
    import phenum.visualize
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    plt.switch_backend("Agg")
    rows = [[str(x) for x in list(h) + list(c) + [n]] for h, c, n in reqs]
    drawn = []
    old = Figure.savefig

    def savefig(fig, name, *a, **b):
        drawn.append((str(name), [tuple(map(tuple, l.get_data_3d())) for l in fig.axes[0].lines] ))
    seen = []
    Figure.savefig = savefig
    try:
        for text in ("\n".join(" ".join(r) for r in rows) + "\n", lay_out(rng, rows)):
            with scratch():
                write_lattice("lattice.in", A, B, [1, 9], k)
                put("list.in", text)
                del drawn[:]
                enum(visualize=True, shapes=True, input="list.in")
                seen.append(repr(drawn))
    finally:
        Figure.savefig = old
        plt.close("all")
    m.event("picture-lists")
    m.check(seen[0] == seen[1], "pictures", "%s: other pictures when the list of cells is laid out differently" % lat, layout=text)
    m.case(("pictures", str(lat), text), nontrivial=len(rows) > 1)


def filters(m, lat, top, k, seed, variants):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    from vlib.run import read_polya
    with scratch():
        write_lattice("lattice.in", A, B, [1, top], k)
        enum(polya=True)
        tables = {x: open(x).read() for x in os.listdir(".") if x.startswith("polya")}
        shapes, cols = [], []
        for n in range(1, top + 1):
            concs, rows, last = read_polya("polya.out.%d" % n)
            shapes += [r[0] for r in rows]
            cols += [c for c in concs if c not in cols]
    for kind, vals in (("shape", shapes), ("conc", cols)):
        pick = rng.sample(vals, max(1, len(vals) // 2))
        # the columns are those that a distribution of the same kind is written with
        rows = [[str(x) for x in ([] if kind == "shape" else [sum(v) // len(B)]) + list(v) + [rng.randint(1, 99)]] for v in pick]
        ref = None
        for v in range(variants + 1):
            text = lay_out(rng, rows) if v else "\n".join(" ".join(r) for r in rows) + "\n"
            with scratch():
                for x in tables:
                    put(x, tables[x])
                put("filter", text)
                enum(distribution=["all", "all"], filter=[kind, "filter"])
                got = {"enum.in": open("enum.in").read()}
                if ref is None:
                    ref = got
                    m.check(got["enum.in"].count("\n") > 1, "filter", "%s: filtering %s with %s leaves nothing" % (lat, kind, pick))
                    continue
                m.event("filter-files")
                compare(m, "%s, filter of %s in another layout" % (lat, kind), ref, got, text, "filter")
                m.case(("filter", kind, str(lat), text), nontrivial=len(rows) > 1)


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def add(lat, optional=False):
        A, B = lattices.get(lat)
        nD = len(B)
        k = rng.choice([2, 2, 3])
        concs = arrows = None
        if rng.random() < .6:
            concs = [[rng.randint(0, 4), rng.randint(0, 4), 4] for _ in range(k)]
            if rng.random() < .7 and Parent(A, B).axes_permuting():
                arrows = [rng.choice([0, .5, 1.]) for _ in range(k)]
        n = {1: 4, 2: 2}.get(nD, 1)
        while n > 1 and enumcheck.work(n * nD, k, concs or [[0, 1, 1]] * k, arrows) > 600:
            n -= 1
        T.append(dict(fn="lattice", args=dict(lat=lat, top=n, k=k, concs=concs, arrows=arrows, sup=rng.random() < .5, seed=rng.randrange(10 ** 6), variants=3 if not big else 20), optional=optional))
        reqs = sample_requests(rng, nD, 8, k, 5)
        if reqs:
            T.append(dict(fn="requests", args=dict(lat=lat, reqs=reqs, k=k, seed=rng.randrange(10 ** 6), variants=3 if not big else 20), optional=optional))
            if rng.random() < .5:
                T.append(dict(fn="pictures", args=dict(lat=lat, reqs=reqs[:3], k=k, seed=rng.randrange(10 ** 6)), optional=optional))
        T.append(dict(fn="filters", args=dict(lat=lat, top=max(1, n - 1), k=k, seed=rng.randrange(10 ** 6), variants=2 if not big else 10), optional=optional))
    for lat in lattices.LIB:
        for _ in range(1 if not big else 6):
            add(lat)
    for i in range(16 if not big else 300):
        add(lattices.random_parent(rng), i > 4)
    return T


main("C28", dict(lattice=lattice, requests=requests, filters=filters, pictures=pictures), tasks,
     "a case is one input file in another layout; non-trivial when what it describes has several structures or rows; distinct by content")
