"""Independent geometric reference model of a parent lattice, its symmetry and
its supercells.

Nothing here imports phenum.  The model works in *direct* (lattice) coordinates
with exact integer arithmetic for everything that concerns the lattice, and
with a single float comparison (tolerance TOL) for the basis sites and the
metric.  It deliberately uses different algorithms from the code under test:
point group = integer matrices W with W^T G W = G, cosets of a sublattice are
labelled by reduction against the lower triangular HNF (never by the Smith
form), permutations are built from where positions go.
"""
import itertools
from functools import lru_cache
from math import gcd, floor, ceil, sqrt
import numpy as np

TOL = 1e-5

# arrow directions: digit d (1..6) in a directions string <-> ARROWS[d-1]
ARROWS = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]])


class Parent(object):
    """Parent lattice. A: lattice vectors as rows; basis: cartesian sites."""

    def __init__(self, A, basis, name=""):
        self.name = name
        self.A = np.array(A, float)
        self.basis = np.array(basis, float).reshape(-1, 3)
        self.nD = len(self.basis)
        self.Ainv = np.linalg.inv(self.A)
        self.d = self.basis @ self.Ainv          # direct coordinates (rows)
        self.G = self.A @ self.A.T
        self.scale = abs(np.linalg.det(self.A)) ** (1. / 3)
        self._pg = None
        self._sg = None

    # -- point group ----------------------------------------------------
    def point_group(self):
        """Integer matrices W (acting on column direct coords) with W^T G W = G."""
        if self._pg is not None:
            return self._pg
        G = self.G
        tol = TOL * self.scale ** 2
        lens = np.diag(G)
        Ginv = np.linalg.inv(G)
        maxl = lens.max() + tol
        b = [int(floor(sqrt(maxl * Ginv[i, i]) + 1e-9)) for i in range(3)]
        rng = [np.arange(-k, k + 1) for k in b]
        V = np.array(np.meshgrid(*rng, indexing="ij")).reshape(3, -1).T
        q = np.einsum("ni,ij,nj->n", V, G, V)
        cand = [V[np.abs(q - lens[i]) < tol] for i in range(3)]
        out = []
        for u in cand[0]:
            gu = G @ u
            for v in cand[1]:
                if abs(v @ gu - G[0, 1]) > tol:
                    continue
                gv = G @ v
                for w in cand[2]:
                    if abs(w @ gu - G[0, 2]) > tol or abs(w @ gv - G[1, 2]) > tol:
                        continue
                    out.append(np.array([u, v, w]).T)
        self._pg = out
        return out

    def cart(self, W):
        """Cartesian matrix R (column convention) of direct-coordinate W."""
        return self.A.T @ W @ self.Ainv.T

    # -- space group ----------------------------------------------------
    def space_group(self):
        """list of (W, t, siteperm, shift): W d_i + t = d_siteperm[i] + shift[i],
        shift integer.  One entry per (W, t mod 1)."""
        if self._sg is not None:
            return self._sg
        out = []
        for W in self.point_group():
            v0 = W @ self.d[0]
            for j in range(self.nD):
                t = self.d[j] - v0
                perm, shift = [], []
                ok = True
                for i in range(self.nD):
                    x = W @ self.d[i] + t
                    for k in range(self.nD):
                        df = x - self.d[k]
                        r = np.round(df)
                        if np.abs(df - r).max() < TOL:
                            perm.append(k)
                            shift.append(r.astype(int))
                            break
                    else:
                        ok = False
                        break
                if ok and len(set(perm)) == self.nD:
                    out.append((W, t, tuple(perm), np.array(shift)))
        self._sg = out
        return out

    def n_pure_translations(self):
        return sum(1 for W, t, p, s in self.space_group() if (W == np.eye(3, dtype=int)).all())

    def axes_permuting(self):
        """True when every point operation permutes the cartesian axes +-x,+-y,+-z."""
        for W in self.point_group():
            R = self.cart(W)
            if np.abs(R - np.round(R)).max() > 1e-6:
                return False
        return True


# -- sublattices -----------------------------------------------------------
def all_hnfs(n):
    """All lower triangular column HNFs of index n (list of 6-tuples a b c d e f)."""
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        m = n // a
        for c in range(1, m + 1):
            if m % c:
                continue
            f = m // c
            for b, d, e in itertools.product(range(c), range(f), range(f)):
                out.append((a, b, c, d, e, f))
    return out


def hnf_matrix(h):
    a, b, c, d, e, f = [int(x) for x in h]
    return np.array([[a, 0, 0], [b, c, 0], [d, e, f]], dtype=object).astype(int)


def column_hnf(M):
    """Lower triangular HNF (0<=off-diagonal<diagonal of its own row) of the lattice
    generated by the integer columns of M, |det| != 0."""
    M = [[int(M[i][j]) for j in range(len(M[0]))] for i in range(3)]
    ncol = len(M[0])
    cols = [[M[0][j], M[1][j], M[2][j]] for j in range(ncol)]
    for r in range(3):
        while True:
            nz = [j for j in range(r, ncol) if cols[j][r] != 0]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda j: abs(cols[j][r]))
            for j in nz:
                if j != p:
                    q = cols[j][r] // cols[p][r]
                    cols[j] = [x - q * y for x, y in zip(cols[j], cols[p])]
        if not nz:
            raise ValueError("singular")
        p = nz[0]
        cols[r], cols[p] = cols[p], cols[r]
        if cols[r][r] < 0:
            cols[r] = [-x for x in cols[r]]
        for j in range(r):
            q = cols[j][r] // cols[r][r]
            cols[j] = [x - q * y for x, y in zip(cols[j], cols[r])]
    return (cols[0][0], cols[0][1], cols[1][1], cols[0][2], cols[1][2], cols[2][2])


def fixes(W, H):
    """does W map the lattice of columns of H to itself (integer test)"""
    h = H if isinstance(H, tuple) else column_hnf(H)
    return column_hnf(np.array(W) @ hnf_matrix(h)) == h


def sublattice_orbits(parent, n, point_ops=None):
    """list of orbits (sets of HNF tuples) of index-n sublattices under the
    rotational parts of the parent space group"""
    if point_ops is None:
        seen = {}
        for W, t, p, s in parent.space_group():
            seen[tuple(W.ravel())] = W
        point_ops = list(seen.values())
    left = set(all_hnfs(n))
    orbits = []
    while left:
        h = min(left)
        orb = set(column_hnf(W @ hnf_matrix(h)) for W in point_ops)
        # orbits of a group: one application of all elements is enough
        orbits.append(orb)
        left -= orb
    return orbits


# -- supercells --------------------------------------------------------------
class Supercell(object):
    """Sites of the supercell: index = iD*n + coset(z)."""

    def __init__(self, parent, h):
        self.parent = parent
        self.h = tuple(int(x) for x in h)
        self.H = hnf_matrix(self.h)
        a, b, c, d, e, f = self.h
        self.n = a * c * f
        self.nD = parent.nD
        self.N = self.n * self.nD
        Z = np.array(list(itertools.product(range(a), range(c), range(f))), dtype=int).reshape(-1, 3)
        self.Z = Z
        self._group = None

    def coset(self, z):
        """coset index of integer vectors z (M,3)"""
        a, b, c, d, e, f = self.h
        z = np.array(z, dtype=int).reshape(-1, 3).copy()
        q = z[:, 0] // a
        z -= q[:, None] * np.array([a, b, d])
        q = z[:, 1] // c
        z -= q[:, None] * np.array([0, c, e])
        z[:, 2] %= f
        return z[:, 0] * c * f + z[:, 1] * f + z[:, 2]

    def translations(self):
        """site maps (target of each site) of the n lattice translations"""
        out = []
        for tau in self.Z:
            c = self.coset(self.Z + tau)
            out.append(np.concatenate([iD * self.n + c for iD in range(self.nD)]))
        return out

    def rotations(self):
        """[(target map, R cart)] for the parent space group operations fixing the superlattice"""
        out = []
        cache = {}
        for W, t, perm, shift in self.parent.space_group():
            key = tuple(W.ravel())
            if key not in cache:
                cache[key] = fixes(W, self.h)
            if not cache[key]:
                continue
            tgt = np.empty(self.N, dtype=int)
            for iD in range(self.nD):
                c = self.coset(self.Z @ W.T + shift[iD])
                tgt[iD * self.n:(iD + 1) * self.n] = perm[iD] * self.n + c
            out.append((tgt, self.parent.cart(W)))
        return out

    def group(self, arrows=False):
        """deduplicated list of (target map tuple, arrow map tuple or None)"""
        seen = set()
        trans = self.translations()
        for tgt, R in self.rotations():
            am = arrow_map(R) if arrows else None
            for tr in trans:
                seen.add((tuple(tr[tgt].tolist()), am))
        return sorted(seen)

    def position(self, idx):
        """cartesian position of a site index (a representative)"""
        iD, k = divmod(int(idx), self.n)
        return self.Z[k] @ self.parent.A + self.parent.basis[iD]


def arrow_map(R):
    """permutation of the six +-axis directions by cartesian R; None if R is not
    axis permuting"""
    out = []
    for v in ARROWS:
        w = R @ v
        k = np.where(np.abs(ARROWS - w).max(axis=1) < 1e-4)[0]
        if len(k) != 1:
            raise ValueError("rotation does not permute the cartesian axes")
        out.append(int(k[0]))
    return tuple(out)


# -- counting ----------------------------------------------------------------
def cycles(perm):
    perm = list(perm)
    seen = [False] * len(perm)
    out = []
    for i in range(len(perm)):
        if not seen[i]:
            l, j = 0, i
            while not seen[j]:
                seen[j] = True
                j = perm[j]
                l += 1
            out.append(l)
    return out


def burnside(group, counts, arrowed=None):
    """Number of orbits of colourings with counts[i] sites of colour i.  arrowed[i]
    True: each site of that colour additionally carries one of six directions.
    Exact integers.  group: list of (site map, arrow map)."""
    k = len(counts)
    arrowed = arrowed or [False] * k
    bytype = {}
    for sp, am in group:
        cyc = tuple(sorted(cycles(sp)))
        acyc = tuple(sorted(cycles(am))) if am is not None else ()
        bytype[(cyc, acyc)] = bytype.get((cyc, acyc), 0) + 1
    total = 0
    for (cyc, acyc), mult in bytype.items():
        dp = {tuple([0] * k): 1}
        for l in cyc:
            w = [1] * k
            for i in range(k):
                if arrowed[i]:
                    w[i] = sum(c for c in acyc if l % c == 0)
            nd = {}
            for st, val in dp.items():
                for i in range(k):
                    if st[i] + l <= counts[i] and w[i]:
                        s2 = st[:i] + (st[i] + l,) + st[i + 1:]
                        nd[s2] = nd.get(s2, 0) + val * w[i]
            dp = nd
        total += mult * dp.get(tuple(counts), 0)
    q, r = divmod(total, len(group))
    assert r == 0, "oracle group is not a group"
    return q


# -- configurations ------------------------------------------------------------
class Actor(object):
    """Applies a supercell group to many configurations at once.
    A configuration is an int array of colours and an int array of arrow digits
    (0 none, 1..6).  State = colour*7 + digit."""

    def __init__(self, sc, arrows, use_group=True):
        self.sc = sc
        self.grp = sc.group(arrows)
        N = sc.N
        self.src = np.empty((len(self.grp), N), dtype=int)
        self.sm = []
        for gi, (tgt, am) in enumerate(self.grp):
            t = np.array(tgt)
            inv = np.empty(N, dtype=int)
            inv[t] = np.arange(N)
            self.src[gi] = inv
            dm = np.arange(7)
            if am is not None:
                dm[1:] = np.array(am) + 1
            self.sm.append(np.array([c * 7 + dm[d] for c in range(36) for d in range(7)], dtype=np.uint8))
        self.trans = []
        for tr in sc.translations():
            inv = np.empty(N, dtype=int)
            inv[tr] = np.arange(N)
            self.trans.append(inv)

    def canon(self, states):
        """states (M,N) uint8 -> list of canonical bytes (lexicographic minimum of the orbit)"""
        states = np.ascontiguousarray(states, dtype=np.uint8)
        M, N = states.shape
        best = states.copy()
        bv = best.view("S%d" % N) if False else None
        for gi in range(len(self.grp)):
            img = self.sm[gi][states[:, self.src[gi]]]
            # lexicographic compare rows
            df = img.astype(np.int16) - best
            nz = df != 0
            first = nz.argmax(axis=1)
            val = df[np.arange(M), first]
            take = val < 0
            if take.any():
                best[take] = img[take]
        return [best[i].tobytes() for i in range(M)]

    def superperiodic(self, states):
        """mask: invariant under a translation of the parent lattice not in the superlattice"""
        states = np.asarray(states, dtype=np.uint8)
        m = np.zeros(len(states), dtype=bool)
        for inv in self.trans[1:]:
            m |= (states[:, inv] == states).all(axis=1)
        return m


def enumerate_states(counts, arrow_counts=None):
    """all states with counts[i] sites of colour i, arrow_counts[i] of which carry an
    arrow.  yields (M,N) uint8 array"""
    k = len(counts)
    N = sum(counts)
    arrow_counts = arrow_counts or [0] * k
    syms, mult = [], []
    for i in range(k):
        na = arrow_counts[i]
        if counts[i] - na:
            syms.append((i, False)); mult.append(counts[i] - na)
        if na:
            syms.append((i, True)); mult.append(na)
    rows = [np.zeros(N, dtype=np.int16) - 1]
    partial = np.full((1, N), -1, dtype=np.int16)
    for si, m in enumerate(mult):
        new = []
        for row in partial:
            free = np.where(row == -1)[0]
            combos = np.array(list(itertools.combinations(free, m)), dtype=int)
            blk = np.repeat(row[None, :], len(combos), axis=0)
            blk[np.arange(len(combos))[:, None], combos] = si
            new.append(blk)
        partial = np.concatenate(new)
    # place arrows
    out = []
    narrow = sum(m for s, m in zip(syms, mult) if s[1])
    colour = np.array([s[0] for s in syms])
    isarr = np.array([s[1] for s in syms])
    base = (colour[partial] * 7).astype(np.uint8)
    if narrow == 0:
        return base
    dirs = np.array(list(itertools.product(range(1, 7), repeat=narrow)), dtype=np.uint8).reshape(-1, narrow)
    for row, p in zip(base, partial):
        pos = np.where(isarr[p])[0]
        blk = np.repeat(row[None, :], len(dirs), axis=0)
        blk[:, pos] += dirs
        out.append(blk)
    return np.concatenate(out)


def n_states(counts, arrow_counts=None):
    from math import factorial
    k = len(counts)
    arrow_counts = arrow_counts or [0] * k
    parts = []
    for i in range(k):
        parts += [counts[i] - arrow_counts[i], arrow_counts[i]]
    v = factorial(sum(counts))
    for p in parts:
        v //= factorial(p)
    return v * 6 ** sum(arrow_counts)


# -- lattice comparison --------------------------------------------------------
def same_lattice(U, V, tol=1e-4):
    """rows of U and V generate the same lattice"""
    S = np.array(U) @ np.linalg.inv(np.array(V))
    r = np.round(S)
    return np.abs(S - r).max() < tol and abs(abs(np.linalg.det(r)) - 1) < 1e-6


def smith_diagonal(h):
    """invariant factors of a cell, from the divisors of its minors"""
    import math
    import itertools
    M = hnf_matrix(h)
    M = [[int(x) for x in r] for r in M]
    d1 = math.gcd(*[x for r in M for x in r])
    two = [M[a][c] * M[b][d] - M[a][d] * M[b][c] for a, b in itertools.combinations(range(3), 2) for c, d in itertools.combinations(range(3), 2)]
    d2 = math.gcd(*two)
    d3 = abs(h[0] * h[2] * h[5])
    return (d1, d2 // d1, d3 // d2)


def cells_with(diagonal):
    """all cells with the given invariant factors"""
    n = diagonal[0] * diagonal[1] * diagonal[2]
    return [h for h in all_hnfs(n) if smith_diagonal(h) == tuple(diagonal)]
