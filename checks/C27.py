"""Pictures of supercells show the supercells that were listed."""
import itertools, os, random
import numpy as np
from vlib.harness import main
from vlib.geom import Parent, Supercell, all_hnfs, hnf_matrix, column_hnf
from vlib import lattices
from vlib.crystal import lattice_of, locate
from vlib.run import scratch, enum, write_lattice


class Picture(object):
    pass


class Recorder(object):
    """notes what is on a figure at the moment it is saved"""

    def __init__(self):
        import matplotlib
        matplotlib.use("Agg")
        matplotlib.use = lambda *a, **k: None       # no window system is needed
        import phenum.visualize
        import matplotlib.pyplot as plt
        plt.switch_backend("Agg")
        from matplotlib.figure import Figure
        self.cls = Figure
        self.pictures = []
        self.shown = 0
        self.plt = plt

    def __enter__(self):
        self.old = self.cls.savefig
        self.oldshow = self.plt.show
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.pictures.append(rec.read(fig, str(fname)))
            with open(fname, "w") as f:     # rendering is not what is watched
                f.write("%PDF\n")

        def show(*a, **k):
            rec.shown += 1
        self.cls.savefig = savefig
        self.plt.show = show
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old
        self.plt.show = self.oldshow
        self.plt.close("all")

    def read(self, fig, name):
        p = Picture()
        p.name = name
        p.axes = len(fig.axes)
        p.edges, p.points = [], []
        for ax in fig.axes:
            for line in ax.lines:
                x, y, z = (np.atleast_1d(np.asarray(v, float)) for v in line.get_data_3d())
                pts = np.array([x, y, z]).T
                if len(pts) > 1 and line.get_linestyle() not in ("None", "", " "):
                    p.edges += [(pts[i], pts[i + 1]) for i in range(len(pts) - 1)]
            for c in ax.collections:
                if hasattr(c, "_offsets3d"):
                    x, y, z = (np.ma.filled(np.atleast_1d(v)) for v in c._offsets3d)
                    p.points += np.array([x, y, z], float).T.tolist()
                elif hasattr(c, "_segments3d"):
                    for s in c._segments3d:
                        s = np.asarray(s, float)
                        p.edges += [(s[i], s[i + 1]) for i in range(len(s) - 1)]
        return p


def outline(edges, tol):
    """the vectors from the origin and the set of distinct edges"""
    seen = []
    for a, b in edges:
        if np.linalg.norm(a - b) < tol:
            continue
        for c, d in seen:
            if (np.abs(a - c).max() < tol and np.abs(b - d).max() < tol) or (np.abs(a - d).max() < tol and np.abs(b - c).max() < tol):
                break
        else:
            seen.append((a, b))
    return seen


def judge(m, p, sc, pic, shapes, tag):
    tol = 1e-6 * max(1, p.scale) * 10
    d = dict(edges=[[a.tolist(), b.tolist()] for a, b in pic.edges], points=pic.points)
    m.event("pictures-judged")
    pts = np.array(pic.points).reshape(-1, 3)
    M = None
    if shapes:
        E = outline(pic.edges, tol)
        m.event("edges", len(E))
        if not m.check(len(E) == 12, "edges", "%s: %d different edges are drawn" % (tag, len(E)), **d):
            return None
        V = [(b if np.abs(a).max() < tol else a) for a, b in E if np.abs(a).max() < tol or np.abs(b).max() < tol]
        if not m.check(len(V) == 3, "origin", "%s: %d edges meet in the origin" % (tag, len(V)), **d):
            return None
        M = np.array(V)
        if not m.check(lattice_of(p, M) == sc.h, "cell", "%s: the edges do not span the listed supercell" % tag, **d):
            return None
        want = []
        for i in range(3):
            j, k = [x for x in range(3) if x != i]
            for s, t in itertools.product((0, 1), repeat=2):
                o = s * M[j] + t * M[k]
                want.append((o, o + M[i]))
        miss = [w for w in want if len(outline([w] + E, tol)) != 12]
        m.check(not miss, "parallelepiped", "%s: %d of the 12 edges of the parallelepiped are missing" % (tag, len(miss)), **d)
    if not shapes or len(pts):
        m.event("points", len(pts))
        if not m.check(len(pts) == sc.N, "points", "%s: %d points for %d sites" % (tag, len(pts), sc.N), **d):
            return None
        idx = locate(sc, pts)
        m.check((idx >= 0).all() and len(set(idx.tolist())) == sc.N, "sites", "%s: %d points are on sites, %d different sites are shown" % (
            tag, int((idx >= 0).sum()), len(set(idx[idx >= 0].tolist()))), **d)
        if M is not None:
            x = pts @ np.linalg.inv(M)
            m.check(x.min() > -1e-6 and x.max() < 1 + 1e-6, "inside", "%s: a point lies outside of the cell" % tag, **d)
    return pts


def run(m, lat, hnfs, style, shapes, show, seed, dup):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    p = Parent(A, B)
    with scratch():
        write_lattice("lattice.in", A, B, [1, 4], 2)
        rows = []
        for h in hnfs:
            n = h[0] * h[2] * h[5] * p.nD
            if style == "shapes":
                rows.append("  " + " ".join(map(str, h)) + "         %d" % rng.randint(1, 300))
            else:
                for _ in range(2 if dup else 1):
                    c = rng.randint(0, n)
                    rows.append(" ".join(map(str, h)) + "   %d %d    %d" % (c, n - c, rng.randint(1, 300)))
        if dup:
            rng.shuffle(rows)
        name = rng.choice(["enum.in", "cells"])
        with open(name, "w") as f:
            f.write("# HNF                 Number\n" + "\n".join(rows) + "\n")
        text = open(name).read()
        args = dict(visualize=True, shapes=shapes, show=show)
        if name != "enum.in" or rng.random() < .5:
            args["input"] = name
        with Recorder() as R:
            enum(**args)
        tag = "%s %s" % (lat, "outlines" if shapes else "sites")
        files = sorted(x for x in os.listdir(".") if x not in ("lattice.in", name))
        m.check(open(name).read() == text, "input-altered", "%s: the list of cells was altered" % tag)
        m.check(len(files) == len(hnfs), "files", "%s: %d pictures for %d different supercells: %s" % (tag, len(files), len(hnfs), files[:10]), hnfs=hnfs)
        m.check(set(q.name for q in R.pictures) == set(files), "files", "%s: files %s, pictures %s" % (tag, files[:5], [q.name for q in R.pictures][:5]))
        if show:
            m.check(R.shown > 0, "show", "%s: nothing was shown" % tag)
        else:
            m.check(R.shown == 0, "show", "%s: an interactive window although none was asked for" % tag)
        byname = {}
        for q in R.pictures:
            byname[os.path.splitext(q.name)[0]] = q
        out = {}
        for h in hnfs:
            key = "".join(map(str, h))
            cand = [x for x in byname if "".join(c for c in x if c.isdigit()) == key]
            if max(h) > 9:      # the entries are told apart by something else than digits
                sep = ["-".join(map(str, h)), "_".join(map(str, h)), " ".join(map(str, h)), ",".join(map(str, h)), ".".join(map(str, h))]
                cand = [x for x in cand if x in sep] or cand
            m.case((str(lat), h, shapes, style), nontrivial=h != [1, 0, 1, 0, 0, 1])
            if not m.check(cand, "not-pictured", "%s: no picture of the cell %s: %s" % (tag, h, sorted(byname)[:10])):
                continue
            out[tuple(h)] = judge(m, p, Supercell(p, column_hnf(hnf_matrix(h))), byname[cand[0]], shapes, "%s cell %s" % (tag, h))
    m.sample(dict(lattice=lat, cells=hnfs[:3], shapes=shapes, pictures=len(R.pictures)))


def documented(m, lat, top):
    """the documented way: list only the supercells, then draw them"""
    A, B = lattices.get(lat)
    p = Parent(A, B)
    with scratch():
        write_lattice("lattice.in", A, B, [1, top], 2)
        enum(polya=True)
        enum(distribution=["shape", "all"], savedist=True)
        hs = []
        for l in open("enum.in"):
            if not l.startswith("#"):
                hs.append([int(x) for x in l.split()[:6]])
        from vlib.geom import sublattice_orbits
        want = sum(len(sublattice_orbits(p, n)) for n in range(1, top + 1))
        m.check(len(hs) == want, "cells", "%s: %d supercells listed, %d exist" % (lat, len(hs), want))
        for shapes in (True, False):
            with Recorder() as R:
                enum(visualize=True, shapes=shapes)
            names = set(q.name for q in R.pictures)
            m.check(len(names) == len(hs), "files", "%s: %d pictures for %d supercells" % (lat, len(names), len(hs)))
            for h, q in zip(hs, R.pictures):
                judge(m, p, Supercell(p, column_hnf(hnf_matrix(h))), q, shapes, "%s cell %s" % (lat, h))
                m.case((str(lat), h, shapes, "documented"), nontrivial=h != [1, 0, 1, 0, 0, 1])


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def add(lat, optional=False):
        A, B = lattices.get(lat)
        nD = len(B)
        hs = []
        for _ in range(8):
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16]) // (1 if nD < 3 else 2) or 1
            h = list(rng.choice(all_hnfs(n)))
            if h not in hs:
                hs.append(h)
        T.append(dict(fn="run", args=dict(lat=lat, hnfs=hs, style=rng.choice(["shapes", "requests"]), shapes=rng.random() < .6,
                      show=rng.random() < .2, seed=rng.randrange(10 ** 6), dup=rng.random() < .3), optional=optional))
    for lat in lattices.LIB:
        for _ in range(2 if not big else 20):
            add(lat)
        if big or rng.random() < .4:
            T.append(dict(fn="documented", args=dict(lat=lat, top=4 if not big else 6)))
    T.append(dict(fn="run", args=dict(lat="tri", hnfs=[list(h) for h in all_hnfs(12)], style="shapes", shapes=True, show=False, seed=1, dup=False)))
    for i in range(16 if not big else 400):
        add(lattices.random_parent(rng), i > 8)
    return T


main("C27", dict(run=run, documented=documented), tasks,
     "a case is one supercell drawn; non-trivial when it is not the primitive cell; distinct by crystal, cell and kind of picture")
