"""Reading crystal files and matching their atoms with the sites of a supercell."""
import re
import numpy as np
from .geom import Parent, Supercell, hnf_matrix, column_hnf, same_lattice
from .enumcheck import site_map


class Poscar(object):
    pass


def read_poscar(path):
    with open(path) as f:
        lines = f.read().split("\n")
    c = Poscar()
    c.title = lines[0]
    c.scale = float(lines[1])
    c.scale_text = lines[1]
    c.A = np.array([[float(x) for x in l.split()] for l in lines[2:5]])
    c.counts = [int(x) for x in lines[5].split()]
    c.mode = lines[6].strip()
    rest = [l for l in lines[7:] if l.strip()]
    c.x = np.array([[float(x) for x in l.split()] for l in rest]).reshape(-1, 3)
    if c.A.shape != (3, 3):
        raise ValueError("no three lattice vectors in %s" % path)
    return c


class Cfg(object):
    pass


def read_cfg(path):
    """blocks of a config file"""
    out = []
    with open(path) as f:
        lines = f.read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        if not l:
            i += 1
            continue
        if l != "BEGIN_CFG":
            raise ValueError("line %d: %r outside of a block" % (i + 1, lines[i]))
        start = i
        b = Cfg()
        if lines[i + 1].strip() != "Size":
            raise ValueError("line %d: no size" % (i + 2))
        b.n = int(lines[i + 2])
        if lines[i + 3].strip().lower() != "supercell":
            raise ValueError("line %d: no supercell" % (i + 4))
        b.A = np.array([[float(x) for x in lines[i + 4 + j].split()] for j in range(3)])
        i += 7
        if not lines[i].strip().startswith("AtomData:"):
            raise ValueError("line %d: no atom data" % (i + 1))
        b.columns = lines[i].split()[1:]
        rows = []
        i += 1
        while i < len(lines) and not lines[i].strip().startswith(("Feature", "END_CFG")):
            rows.append([float(x) for x in lines[i].split()])
            i += 1
        b.rows = np.array(rows).reshape(-1, len(b.columns))
        b.features = []
        while i < len(lines) and lines[i].strip().startswith("Feature"):
            b.features.append(lines[i].strip())
            i += 1
        if i >= len(lines) or lines[i].strip() != "END_CFG":
            raise ValueError("a block does not end")
        b.text = "\n".join(lines[start:i + 1])
        i += 1
        out.append(b)
    return out


def parent_of(A, B, header):
    """the parent crystal with its sites as the list states them, at full precision"""
    p = Parent(A, B)
    hb = np.array(header["basis"]).reshape(-1, 3)
    if hb.shape != p.basis.shape:
        raise ValueError("the list states %d sites for %d" % (len(hb), p.nD))
    sh = np.round((hb - p.basis) @ p.Ainv)
    return Parent(A, p.basis + sh @ p.A)


def cells(parent, rec):
    """(supercell, expected colour per site, expected direction per site)"""
    sc = Supercell(parent, column_hnf(hnf_matrix(rec.hnf)))
    mp = site_map(sc, rec.L, rec.snf)
    if mp is None:
        raise ValueError("the transform does not label the cell")
    col = np.empty(sc.N, dtype=int)
    dr = np.empty(sc.N, dtype=int)
    if len(rec.lab) != sc.N or len(rec.dirs) != sc.N:
        raise ValueError("labels do not fit the cell")
    col[mp] = [int(c) for c in rec.lab]
    dr[mp] = [int(c) for c in rec.dirs]
    return sc, col, dr


def superlattice(sc):
    """superlattice vectors as rows"""
    return sc.H.T @ sc.parent.A


def locate(sc, cart, tol=2e-4):
    """site index of each cartesian position and its distance from the site; -1 if none within tol"""
    p = sc.parent
    x = np.asarray(cart) @ p.Ainv
    idx = np.full(len(x), -1, dtype=int)
    for iD in range(p.nD):
        z = x - p.d[iD]
        r = np.round(z)
        ok = np.linalg.norm((z - r) @ p.A, axis=1) < tol * max(1, p.scale)
        if ok.any():
            idx[ok] = iD * sc.n + sc.coset(r[ok].astype(int))
    return idx


def lattice_of(parent, A):
    """sublattice (HNF tuple) of the parent lattice with the given vectors (rows), or None"""
    M = A @ parent.Ainv
    r = np.round(M)
    if np.abs(M - r).max() > 1e-3 or abs(np.linalg.det(r)) < .5:
        return None
    return column_hnf(r.astype(int).T)


NEIGH = np.array(np.meshgrid([-1, 0, 1], [-1, 0, 1], [-1, 0, 1])).reshape(3, -1).T


def displacement(sc, cart):
    """nearest site index of each position and the vector from the site to it"""
    p = sc.parent
    x = np.asarray(cart) @ p.Ainv
    best = np.full(len(x), np.inf)
    idx = np.full(len(x), -1, dtype=int)
    vec = np.zeros((len(x), 3))
    for iD in range(p.nD):
        z = x - p.d[iD]
        r = np.round(z)
        for s in NEIGH:
            v = (z - r - s) @ p.A
            n = np.linalg.norm(v, axis=1)
            t = n < best
            if t.any():
                best[t] = n[t]
                vec[t] = v[t]
                idx[t] = iD * sc.n + sc.coset((r[t] + s).astype(int))
    return idx, vec


DIRS = np.array([[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]])


def match_exact(sc, cart, kinds, col, disp, tol):
    """matches atoms with sites displaced by the vectors disp (one per site), modulo the
    superlattice, species respected. Returns the number of unmatched atoms."""
    p = sc.parent
    Z = np.concatenate([sc.Z @ p.A + p.basis[i] for i in range(p.nD)])
    target = Z + disp
    S = sc.H.T @ p.A
    Si = np.linalg.inv(S)
    free = np.ones(sc.N, dtype=bool)
    bad = 0
    for x, kk in zip(cart, kinds):
        d = (x - target) @ Si
        d = (d - np.round(d)) @ S
        ok = np.where((np.linalg.norm(d, axis=1) < tol) & free & (col == kk))[0]
        if len(ok):
            free[ok[0]] = False
        else:
            bad += 1
    return bad


def rewrite_directions(path, rng, recs, keep=.3):
    """replaces the directions of a structure list by random ones; returns them"""
    lines = open(path).read().split("\n")
    out = {}
    for r in recs:
        x = rng.random()
        if x < .15:
            new = "0" * len(r.lab)
        else:
            new = "".join(rng.choice("0123456") if rng.random() > keep else "0" for _ in r.lab)
        i = next(i for i, l in enumerate(lines) if l == r.line)
        head, tail = lines[i][:lines[i].rindex(r.dirs)], new
        lines[i] = head + tail
        r.dirs = new
        r.line = lines[i]
        out[r.num] = new
    with open(path, "w") as f:
        f.write("\n".join(lines))
    return out


def sample_requests(rng, nD, top, k, count):
    """requests (cell, composition, number) that are quick to enumerate"""
    from .geom import all_hnfs, n_states, cells_with
    # translation groups that are not cyclic
    forms = [(1, 2, 2), (1, 3, 3), (1, 2, 4), (2, 2, 2), (1, 2, 6), (1, 4, 4), (2, 2, 4), (3, 3, 3)]
    reqs = []
    for _ in range(count):
        s = rng.randint(1, max(1, top // nD))
        h = rng.choice(all_hnfs(s))
        if rng.random() < .3:
            F = rng.choice(forms)
            if F[0] * F[1] * F[2] * nD <= 2 * top:
                h = rng.choice(cells_with(F))
        s = h[0] * h[2] * h[5]
        N = s * nD
        for _ in range(40):
            c = [0] * k
            while sum(c) < N:
                c[rng.randrange(k)] += 1
            if n_states(c) <= 1500 or (n_states(c) > 100000 and c == sorted(c)):
                break
        else:
            continue
        reqs.append([h, c, rng.randint(1, 4)])
    return reqs


def write_requests(reqs):
    with open("enum.in", "w") as f:
        f.write("# requests\n")
        for h, c, n in reqs:
            f.write(" ".join(map(str, h)) + " " + " ".join(map(str, c)) + " %d\n" % n)
