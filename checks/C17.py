"""Displaced atoms move by the requested amount along their recorded direction."""
import random
import numpy as np
from vlib.harness import main
from vlib import lattices
from vlib.crystal import (read_poscar, read_cfg, parent_of, cells, displacement, match_exact, rewrite_directions,
                          sample_requests, write_requests, DIRS, lattice_of)
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out


def judge(m, sc, col, dr, k, cart, kinds, amount, rattle, unit, tag, **d):
    """cart: positions; amount in the units of cart is amount*unit"""
    if len(cart) != sc.N or len(kinds) != sc.N:
        m.violate("atoms", "%s: %d atoms for %d sites" % (tag, len(cart), sc.N), **d)
        return []
    moved = dr > 0
    m.event("displaced-atoms-recorded", int(moved.sum()))
    tol = 3e-4 * max(1, sc.parent.scale)
    if not rattle:
        bad = match_exact(sc, np.asarray(cart) / unit, kinds, col, DIRS[dr] * amount, tol)
        m.check(bad == 0, "displacement", "%s: %d of %d atoms are not where the record and the displacement %g put them" % (tag, bad, sc.N, amount), **d)
        return []
    idx, vec = displacement(sc, np.asarray(cart) / unit)
    if len(set(idx.tolist())) != sc.N:
        m.violate("displacement", "%s: the atoms are not near the sites of the cell" % tag, **d)
        return []
    ratios = []
    for i, s in enumerate(idx):
        if col[s] != kinds[i]:
            m.violate("species", "%s: an atom of species %d is near a site of species %d" % (tag, kinds[i], col[s]), **d)
            return []
        e = DIRS[dr[s]] * amount
        if not moved[s]:
            if np.linalg.norm(vec[i]) > tol:
                m.violate("undisplaced-moved", "%s: an atom without direction is moved by %s" % (tag, vec[i].tolist()), **d)
                return []
            continue
        r = float(vec[i] @ e / (e @ e))
        if np.linalg.norm(vec[i] - r * e) > tol:
            m.violate("direction", "%s: an atom with direction %d is moved by %s" % (tag, dr[s], vec[i].tolist()), **d)
            return []
        if abs(r - 1) > rattle + 2 * tol / abs(amount):
            m.violate("rattle", "%s: a displacement is varied by the fraction %.4f, at most %.4f was asked for" % (tag, r - 1, rattle), **d)
            return []
        ratios.append(r - 1)
    return ratios


def run(m, lat, sizes, k, arrows, reqs, seed, modes):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k, [[0, 1, 1]] * k if arrows else None, arrows)
        if reqs:
            write_requests(reqs)
        enum(enum=True, super=True, seed=seed)
        h, recs = read_enum_out("enum.out")
        if len(recs) > 60:
            recs = rng.sample(recs, 60)
        p = parent_of(A, B, h)
        if not arrows:
            rewrite_directions("enum.out", rng, recs)
        # the smallest distance between sites bounds how far atoms may be moved and still be told apart
        small = .2 * min(np.linalg.norm((p.d[i] - p.d[j] + np.array(s) - 2) @ p.A) for i in range(p.nD) for j in range(p.nD)
                         for s in np.ndindex(5, 5, 5) if i != j or s != (2, 2, 2))
        allr = []
        for n, (amount, rattle, mink, species, cfg) in enumerate(modes):
            if rattle:
                amount = amount * small / .6 / (1 + rattle)
            tag0 = "%s displaced by %g varied by %g" % (lat, amount, rattle)
            nums = sorted(r.num for r in recs)
            for r in recs:
                sel = [str(r.num)]
                out = "cfg.%d" % n if cfg else "vasp%d.{}" % n
                makestr(structures=sel, input="enum.out", displace=amount, rattle=rattle, mink=mink, species=species, outfile=out, config="t" if cfg else "f")
                sc, col, dr = cells(p, r)
                d = dict(record=r.line, mink=mink, species=species)
                tag = "%s structure %d" % (tag0, r.num)
                m.event("files-observed")
                if cfg:
                    b = read_cfg(out)[-1]
                    S = b.A
                    vol = abs(np.linalg.det(S)) / (abs(np.linalg.det(p.A)) * sc.n)
                    unit = vol ** (1 / 3.)      # the lattice parameter, from the volume
                    cart, kinds = b.rows[:, 2:5], b.rows[:, 1].astype(int).tolist()
                else:
                    c = read_poscar("vasp%d.%d" % (n, r.num))
                    cart, kinds, unit = c.x @ c.A, [i for i in range(len(c.counts)) for _ in range(c.counts[i])], 1.
                    m.check(lattice_of(p, c.A) == sc.h, "superlattice", "%s: the cell changed" % tag, **d)
                m.case((str(lat), r.hnf, r.lab, r.dirs, amount, rattle, mink, cfg), nontrivial=bool((dr > 0).any() and amount))
                allr.append((n, judge(m, sc, col, dr, k, cart, kinds, amount, rattle, unit, tag, **d)))
        for n, mode in enumerate(modes):
            x = [r for i, rs in allr if i == n for r in rs]
            if mode[1] >= .05 and len(x) >= 12:
                m.event("varied-displacements", len(x))
                m.check(max(x) - min(x) > .1 * mode[1], "not-varied", "%s: %d displacements all have the length ratio %.4f although varied by %g" % (lat, len(x), x[0] + 1, mode[1]))
    m.sample(dict(lattice=lat, structures=len(recs), modes=modes[:2]))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    EL = ["Al", "Ni", "Cu", "Pd"]

    def modes(k, n):
        out = []
        for i in range(n):
            ra = rng.choice([0, 0, .1, .5, .25, 1.])
            # amounts of randomised displacements are scaled to stay within reach of the sites
            am = rng.choice([.1, .25, .5, .5, -.3, 1., .05, 0]) if not ra else rng.choice([.6, .3, .5, -.6])
            out.append([am, ra, rng.choice(["t", "f"]), rng.choice([None, EL[:k]]), rng.random() < .4])
        return out
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        for _ in range(1 if not big else 8):
            k = rng.choice([1, 2, 2, 3])
            r = sample_requests(rng, nD, 14, k, 4)
            if r:
                T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 20], k=k, arrows=None, reqs=r, seed=rng.randrange(10 ** 6), modes=modes(k, 3))))
    for lat in ["fcc", "sc", "bcc", "tet", "orth", "sc2", "dia", "tri", "gen2"]:
        nD = len(lattices.get(lat)[1])
        k = rng.choice([1, 2])
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 3 if nD == 1 and k == 2 else 2 if nD == 1 else 1], k=k, arrows=[rng.choice([.5, 1.]), rng.choice([0., .5])][:k], reqs=None,
                                          seed=rng.randrange(10 ** 6), modes=modes(k, 2))))
    for i in range(30 if not big else 600):
        lat = lattices.random_parent(rng)
        k = rng.choice([1, 2, 3])
        r = sample_requests(rng, len(lat[1]), 14, k, 4)
        if r:
            T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 20], k=k, arrows=None, reqs=r, seed=rng.randrange(10 ** 6), modes=modes(k, 3)), optional=i > 8))
    return T


main("C17", dict(run=run), tasks,
     "a case is one crystal file with a displacement request; non-trivial when atoms have directions and the displacement is not zero; distinct by crystal, cell, labels, directions and mode")
