"""Config files describe the same crystals and only ever grow."""
import os, random, re
import numpy as np
from vlib.harness import main
from vlib import lattices
from vlib.crystal import read_cfg, read_poscar, parent_of, cells, match_exact, sample_requests, write_requests, lattice_of, rewrite_directions, DIRS
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out

EL = ["Al", "Ni", "Cu", "Pd", "Ti", "W"]


def block(m, b, r, p, lat, mapping, named, amount, mink, tag):
    sc, col, dr = cells(p, r)
    d = dict(record=r.line, mapping=mapping, block=b.text[:600])
    m.event("blocks-judged")
    m.check(b.n == sc.N == len(b.rows), "size", "%s: the block states %d atoms and lists %d of %d" % (tag, b.n, len(b.rows), sc.N), **d)
    if len(b.rows) != sc.N:
        return
    m.check(b.columns == ["id", "type", "cartes_x", "cartes_y", "cartes_z"], "columns", "%s: columns %s" % (tag, b.columns), **d)
    ids = b.rows[:, 0]
    m.check(ids.tolist() == list(range(1, sc.N + 1)), "ids", "%s: the atoms are numbered %s" % (tag, ids.tolist()), **d)
    lp = (abs(np.linalg.det(b.A)) / (abs(np.linalg.det(p.A)) * sc.n)) ** (1 / 3.)
    if not named:
        m.check(abs(lp - 1) < 1e-3, "scale", "%s: the cell is scaled by %g without names" % (tag, lp), **d)
    m.check(lattice_of(p, b.A / lp) == sc.h, "superlattice", "%s: the cell is not the superlattice of the record" % tag, **d)
    want = np.array([mapping[c] for c in col])
    tol = 3e-4 * max(1, sc.parent.scale)
    bad = match_exact(sc, b.rows[:, 2:5] / lp, b.rows[:, 1].astype(int).tolist(), want, DIRS[dr] * amount, tol)
    m.check(bad == 0, "atoms", "%s: %d of %d atoms are not where (or not of the type) the record says" % (tag, bad, sc.N), **d)
    conf = [x for x in b.features if x.split()[:2] == ["Feature", "conf_id"]]
    m.check(len(conf) == 1 and len(b.features) == len(conf), "feature", "%s: the features are %s" % (tag, b.features), **d)
    if conf:
        words = re.split(r"[_\s]+", conf[0].replace("conf_id", ""))[1:]
        m.check(words and words[-1] == str(r.num), "conf-id", "%s: structure %d is identified by %r" % (tag, r.num, conf[0]), **d)
        if named:
            shown = [x for x in words if x in EL]
            present = [named[i] for i in range(len(named)) if (col == i).any()]
            m.check(shown == present, "conf-id", "%s: structure %d of %s is identified by %r" % (tag, r.num, present, conf[0]), **d)


def run(m, lat, sizes, k, reqs, seed, steps):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k)
        if reqs:
            write_requests(reqs)
        enum(enum=True, super=True, seed=seed)
        h, recs = read_enum_out("enum.out")
        p = parent_of(A, B, h)
        rewrite_directions("enum.out", rng, recs, .8)
        if not recs:
            return
        recs = sorted(recs, key=lambda r: r.num)
        small = .2 * min(np.linalg.norm((p.d[i] - p.d[j] + np.array(s) - 2) @ p.A) for i in range(p.nD) for j in range(p.nD)
                         for s in np.ndindex(5, 5, 5) if i != j or s != (2, 2, 2))
        want = {}
        for n, step in enumerate(steps):
            out = step["out"]
            sel = step["sel"]
            if sel == "all":
                rs, arg = recs, ["all"]
            elif sel == "one":
                r = rng.choice(recs)
                rs, arg = [r], [str(r.num)]
            else:
                a = rng.randrange(len(recs))
                b = min(len(recs) - 1, a + rng.randint(0, 6))
                rs, arg = recs[a:b + 1], [str(recs[a].num), str(recs[b].num)]
            mp = step["mapping"] or list(range(k))
            mp = mp[:k]
            species = step["species"]
            named = None
            if species:
                named = [species[i] for i in mp] if len(species) != k else species
            amount = step["displace"] * small
            old = open(out).read() if os.path.exists(out) else ""
            before = sorted(x for x in os.listdir(".") if x != out)
            lead = open("enum.out").read()
            makestr(structures=list(arg), input="enum.out", outfile=out, species=species, species_mapping=step["mapping"], config="t", mink=step["mink"], displace=amount)
            new = open(out).read()
            tag = "%s, run %d of selection %s" % (lat, n + 1, arg)
            m.event("runs")
            m.event("appending-runs", int(bool(old)))
            m.check(new[:len(old)] == old, "earlier-altered", "%s: earlier contents of the file were altered" % tag, step=step)
            m.check(sorted(x for x in os.listdir(".") if x != out) == before and open("enum.out").read() == lead, "other-files", "%s: other files changed" % tag)
            try:
                blocks = read_cfg(out)
            except (ValueError, IndexError) as e:
                m.violate("format", "%s: the file is not a sequence of complete blocks: %s" % (tag, e), text=new[-500:])
                return
            want.setdefault(out, [])
            want[out] += [(r, mp, named, amount, step["mink"]) for r in rs]
            if not m.check(len(blocks) == len(want[out]), "blocks", "%s: the file has %d blocks for %d requested structures" % (tag, len(blocks), len(want[out])), step=step):
                return
        for out, w in want.items():
            for b, (r, mp, named, amount, mink) in zip(read_cfg(out), w):
                m.case((str(lat), r.line, mp, named, amount, mink), nontrivial=len(r.lab) > 1)
                block(m, b, r, p, lat, mp, named, amount, mink, "%s structure %d" % (lat, r.num))
    m.sample(dict(lattice=lat, structures=len(recs), steps=steps[:2]))


def plan(rng, k, n):
    out = []
    for i in range(n):
        s = dict(out=rng.choice(["train.cfg", "train.cfg", "other.cfg"]), sel=rng.choice(["all", "one", "range", "range"]),
                 mink=rng.choice("tf"), displace=rng.choice([0, 0, .5, -1]), mapping=None, species=None)
        x = rng.random()
        if x < .3:
            s["species"] = rng.sample(EL, k)
        elif x < .55:       # an edge of a system with more species: names of all of them
            full = rng.sample(EL, k + rng.randint(1, 2)) if k < 5 else EL
            s["species"] = full
            s["mapping"] = rng.sample(range(len(full)), k)
        elif x < .7:        # only numbers
            s["mapping"] = rng.sample(range(7), k)
        out.append(s)
    return out


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    for lat in lattices.LIB:
        nD = len(lattices.get(lat)[1])
        for _ in range(1 if not big else 6):
            k = rng.choice([1, 2, 2, 3])
            r = sample_requests(rng, nD, 14, k, 4)
            if r:
                T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 20], k=k, reqs=r, seed=rng.randrange(10 ** 6), steps=plan(rng, k, 4))))
    for lat in ["fcc", "hex", "tri", "hcp", "dia", "out2"]:
        nD = len(lattices.get(lat)[1])
        T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 4 if nD == 1 else 2], k=2, reqs=None, seed=rng.randrange(10 ** 6), steps=plan(rng, 2, 3))))
    for i in range(20 if not big else 500):
        lat = lattices.random_parent(rng)
        k = rng.choice([1, 2, 3, 4])
        r = sample_requests(rng, len(lat[1]), 14, k, 4)
        if r:
            T.append(dict(fn="run", args=dict(lat=lat, sizes=[1, 20], k=k, reqs=r, seed=rng.randrange(10 ** 6), steps=plan(rng, k, 4)), optional=i > 8))
    return T


main("C19", dict(run=run), tasks,
     "a case is one block of a config file compared with its record; non-trivial with more than one atom; distinct by crystal, record, mapping, names and displacement")
