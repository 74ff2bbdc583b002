"""The permutation group of a supercell against the action computed from positions."""
import numpy as np
from vlib.harness import main, resolve
from vlib.geom import Parent, Supercell, all_hnfs, hnf_matrix, arrow_map
from vlib import lattices
from vlib.enumcheck import site_map
from vlib.run import quiet


def group(m, lat, hnfs, arrows):
    get_sym_group = resolve("phenum.grouptheory:get_sym_group")
    snf = resolve("phenum.grouptheory:SmithNormalForm")
    A, B = lattices.get(lat)
    p = Parent(A, B, str(lat))
    # sites as the program numbers them: mapped into the cell
    d = p.d - np.floor(p.d + 1e-9)
    p = Parent(A, d @ p.A, str(lat))
    for h in hnfs:
        h = tuple(h)
        H = hnf_matrix(h).tolist()
        with quiet():
            g = get_sym_group([list(v) for v in A], [list(v) for v in B], H, 3, arrows=arrows)
            S, L, R = snf(H)
        S = [int(S[i][i]) for i in range(3)]
        sc = Supercell(p, h)
        mp = site_map(sc, np.array(L).astype(int), S)
        if mp is None:
            m.violate("labels", "%s: the transform does not label the cells" % (h,))
            continue
        inv = np.empty(sc.N, dtype=int)
        inv[mp] = np.arange(sc.N)
        ref = set()
        for t, am in sc.group(arrows):
            t = np.array(t)
            # acting: content of site i goes to site t[i]
            ref.add((tuple(inv[t[mp]].tolist()), am))
        # The program applies a permutation q by new[j] = old[q[j]] and maps a direction v to
        # arrow[v]: content of q[j] goes to j. Stored arrow maps are those of the same operation.
        got = []
        for q, a in zip(g.perm.site_perm, g.perm.arrow_perm):
            q = [int(x) for x in q]
            if sorted(q) != list(range(sc.N)):
                m.violate("not-a-permutation", "%s: %s does not permute the sites" % (h, q))
                break
            t = [0] * sc.N
            for j, x in enumerate(q):
                t[x] = j
            am = tuple(int(x) for x in a)
            if sorted(am) != list(range(6)):
                m.violate("not-a-permutation", "%s: %s does not permute the directions" % (h, am))
                break
            got.append((tuple(t), am if arrows else None))
        else:
            m.event("operations-observed", len(got))
            m.event("operations-expected", len(ref))
            m.case((str(lat), h, arrows), nontrivial=len(ref) > 1)
            if len(set(got)) != len(got):
                m.violate("repeated-operation", "%s: %d of %d operations are repeated" % (h, len(got) - len(set(got)), len(got)))
            G = set(got)
            if G - ref:
                m.violate("extra-operation", "%s: %d operations are not symmetries of the crystal" % (h, len(G - ref)), example=min(G - ref))
            if ref - G:
                m.violate("missing-operation", "%s: %d of %d symmetries are missing" % (h, len(ref - G), len(ref)), example=min(ref - G))
            n = sc.n
            ident = tuple(range(6)) if arrows else None
            tr = set((tuple(inv[t[mp]].tolist()), ident) for t in sc.translations())
            m.check(set(got[:n]) == tr, "translations-first", "%s: the first %d operations are not the lattice translations" % (h, n))
            m.check(got[0][0] == tuple(range(sc.N)), "identity-first", "%s: the first operation is not the identity" % (h,))
    m.sample(dict(lattice=lat, cell=h, directions=arrows, order=len(g.perm.site_perm)))


def tasks(tier, rng):
    T = []
    mx = 5 if tier == "quick" else 8

    def pick(nmax, cnt, nD):
        allh = [h for n in range(1, nmax + 1) for h in all_hnfs(n)]
        return [h for h in allh if sum(1 for _ in [0]) and rng.random() < cnt / len(allh)] or [rng.choice(allh)]
    for lat, (A, B) in list(lattices.LIB.items()) + [(t, t) for t in lattices.TYPED]:
        nD = len(B)
        ax = Parent(A, B).axes_permuting()
        cnt = {1: 26, 2: 16}.get(nD, 8)
        T.append(dict(fn="group", args=dict(lat=lat, hnfs=pick(mx if nD < 3 else 3, cnt, nD), arrows=False)))
        if ax:
            T.append(dict(fn="group", args=dict(lat=lat, hnfs=pick(mx if nD < 3 else 3, cnt // 2, nD), arrows=True)))
    for i in range(24 if tier == "quick" else 400):
        lat = lattices.random_parent(rng, nD=rng.choice([1, 1, 2, 3, 4]))
        nD = len(lat[1])
        ax = Parent(*lat).axes_permuting()
        T.append(dict(fn="group", args=dict(lat=lat, hnfs=pick({1: 8, 2: 6}.get(nD, 4) if tier == "quick" else 12 // nD, 10, nD),
                                            arrows=bool(ax and rng.random() < .5)), optional=i >= 10))
    # large cells, whose transforms have large entries
    for i in range(24 if tier == "quick" else 300):
        lat = lattices.random_parent(rng, nD=1) if i % 2 else rng.choice(["fcc", "bcc", "hex", "rhom", "tri", "mono", "fcc4", "fco", "bct"])
        hs = [rng.choice(all_hnfs(rng.randint(14, 40))) for _ in range(3)]
        T.append(dict(fn="group", args=dict(lat=lat, hnfs=hs, arrows=False), optional=i >= 8))
    T.append(dict(fn="group", args=dict(lat=[[[0.0, 0.64, 0.545], [0.44, 0.0, 0.545], [0.44, 0.64, 0.0]], [[0.0, 0.0, 0.0]]],
                                        hnfs=[[1, 12, 13, 1, 0, 2], [2, 0, 1, 14, 16, 17]], arrows=False)))
    return T


main("C04", dict(group=group), tasks,
     "a case is the group of one supercell; non-trivial when it has more than the identity; distinct by lattice, cell and mode")
