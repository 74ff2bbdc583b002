"""Oracle for enumeration outputs: decodes recorded structures onto the reference supercell
and compares them, class by class, with an independent exhaustive enumeration."""
import itertools
from fractions import Fraction
import numpy as np
from .geom import (Parent, Supercell, Actor, sublattice_orbits, enumerate_states, n_states, burnside,
                   hnf_matrix, column_hnf)

DIG = "0123456789"


def site_map(sc, L, S):
    """recorded site index -> reference site index, from the record's own left transform and
    Smith diagonal: site z of sublattice d sits at d*n + mixed radix (L z mod S)"""
    g = (sc.Z @ np.array(L).T) % np.array(S)
    k = g[:, 0] * S[1] * S[2] + g[:, 1] * S[2] + g[:, 2]
    m = np.full(sc.N, -1, dtype=int)
    for iD in range(sc.nD):
        m[iD * sc.n + k] = iD * sc.n + np.arange(sc.n)
    if (m < 0).any():
        return None
    return m


def allowed(counts, concs):
    """is a composition within the requested closed ranges (exact)"""
    N = sum(counts)
    if concs is None:
        return True
    for x, (lo, hi, den) in zip(counts, concs):
        lo, hi = sorted((lo, hi))
        if not (Fraction(int(lo), int(den)) <= Fraction(x, N) <= Fraction(int(hi), int(den))):
            return False
    return True


def compositions(N, k):
    if k == 1:
        yield (N,)
        return
    for x in range(N + 1):
        for r in compositions(N - x, k - 1):
            yield (x,) + r


def arrow_counts(counts, fractions):
    """number of displaced atoms of each species: the fraction of its count rounded down"""
    if not fractions:
        return None
    return [int((Fraction(str(f)) * c).__floor__()) for c, f in zip(counts, fractions)]


class Decoded(object):
    def __init__(self):
        self.states = None
        self.canon = None
        self.sup = None


def decode(recs, parent, arrows, k):
    """groups records by cell. returns {hnf: (Supercell, Actor, states, recs)}; raises ValueError
    on records that do not describe a colouring of the cell"""
    by = {}
    for r in recs:
        by.setdefault(r.hnf, []).append(r)
    out = {}
    for h, rs in by.items():
        a, b, c, d, e, f = h
        if not (a > 0 and c > 0 and f > 0):
            raise ValueError("cell %r is not a lower triangular HNF" % (h,))
        sc = Supercell(parent, column_hnf(hnf_matrix(h)))
        act = Actor(sc, arrows)
        st = np.zeros((len(rs), sc.N), dtype=np.uint8)
        maps = {}
        for i, r in enumerate(rs):
            key = (tuple(r.L.ravel()), tuple(r.snf))
            if key not in maps:
                maps[key] = site_map(sc, r.L, r.snf)
            m = maps[key]
            if m is None:
                raise ValueError("transform %r with diagonal %r does not label the %d cells of %r" % (
                    r.L.tolist(), r.snf, sc.n, h))
            if len(r.lab) != sc.N or len(r.dirs) != sc.N:
                raise ValueError("labeling %r / %r does not have one entry per site (%d) of %r" % (
                    r.lab, r.dirs, sc.N, h))
            x = [int(c) * 7 + int(g) for c, g in zip(r.lab, r.dirs)]
            if max(int(c) for c in r.lab) >= k or max(int(g) for g in r.dirs) > 6:
                raise ValueError("labeling %r / %r uses an undefined species or direction" % (r.lab, r.dirs))
            st[i, m] = x
        out[h] = (sc, act, st, rs)
    return out


def expected_for(sc, act, k, concs, fractions, sup, cap=None):
    """{composition: set of canonical states}"""
    out = {}
    for cc in compositions(sc.N, k):
        if not allowed(cc, concs):
            continue
        ac = arrow_counts(cc, fractions)
        S = enumerate_states(cc, ac)
        if not sup:
            S = S[~act.superperiodic(S)]
        if len(S):
            out[cc] = set(act.canon(S))
    return out


def work(N, k, concs, fractions):
    return sum(n_states(cc, arrow_counts(cc, fractions)) for cc in compositions(N, k) if allowed(cc, concs))


def composition(state, k):
    col = np.asarray(state) // 7
    return tuple(int((col == i).sum()) for i in range(k))


def compare_full(m, recs, parent, sizes, k, concs=None, fractions=None, sup=False, tag=""):
    """full enumeration oracle. m: Monitor"""
    arrows = bool(fractions) and any(f for f in fractions)
    try:
        dec = decode(recs, parent, arrows, k)
    except ValueError as e:
        m.violate("malformed", "%s%s" % (tag, e))
        return
    used = set()
    nexp = 0
    for n in range(sizes[0], sizes[1] + 1):
        for orb in sublattice_orbits(parent, n):
            mine = [h for h in dec if column_hnf(hnf_matrix(h)) in orb]
            used.update(mine)
            if len(mine) > 1:
                m.violate("duplicate-cell", "%scells %s describe symmetry-equivalent supercells" % (tag, mine))
            ref = mine[0] if mine else min(orb)
            if mine:
                sc, act, st, rs = dec[ref]
                got = act.canon(st)
            else:
                sc = Supercell(parent, ref)
                act = Actor(sc, arrows)
                got, rs, st = [], [], []
            exp = expected_for(sc, act, k, concs, fractions, sup)
            E = set().union(*exp.values()) if exp else set()
            nexp += len(E)
            m.event("classes-expected", len(E))
            m.event("structures-observed", len(got))
            m.case((tag, n, sc.h, k, str(concs), str(fractions), sup, parent.name), nontrivial=len(E) > 0)
            if len(mine) > 1:
                continue
            first = {}
            for i, c in enumerate(got):
                if c in first:
                    m.violate("duplicate-structure",
                              "%scell %s: structures %d and %d are symmetry-equivalent" % (
                                  tag, sc.h, rs[first[c]].num, rs[i].num),
                              a=rs[first[c]].lab + " " + rs[first[c]].dirs, b=rs[i].lab + " " + rs[i].dirs)
                first.setdefault(c, i)
            extra = [i for c, i in first.items() if c not in E]
            for i in extra[:3]:
                why = "superperiodic" if not sup and act.superperiodic(st[i:i + 1])[0] else \
                    "outside of the requested composition or displacement counts"
                m.violate("unexpected-structure", "%scell %s: structure %d (%s %s) is %s" % (
                    tag, sc.h, rs[i].num, rs[i].lab, rs[i].dirs, why))
            miss = E - set(first)
            if miss:
                x = np.frombuffer(min(miss), dtype=np.uint8)
                m.violate("missing-structure", "%scell %s: %d of %d inequivalent structures are missing" % (
                    tag, sc.h, len(miss), len(E)), colours=(x // 7).tolist(), directions=(x % 7).tolist())
    for h in dec:
        if h not in used:
            m.violate("unexpected-cell", "%scell %s has a size that was not requested" % (tag, h))
    return nexp
