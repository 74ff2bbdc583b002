"""The lattice parameter and the title of a written crystal follow the named species."""
import os, random
import numpy as np
from vlib.harness import main, resolve
from vlib import lattices
from vlib.crystal import read_poscar, read_cfg, parent_of, cells, sample_requests, write_requests
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out, CodeExit

# atomic volumes, copied from the published table of the program
VOL = {}
for _t in """H 37.2958 He 32.1789 Li 21.2543 Be 8.49323 B 7.24205 C 5.68741 N 46.6002 O 22.2802 F 17.0258 Ne 21.7346 Na 23.2596
 Mg 23.3928 Al 16.6075 Si 7.8511 P 9.1459 S 17.1672 Cl 35.2074 Ar 36.3829 K 71.5278 Ca 43.4353 Sc 25.6478 Ti 18.1565 V 13.7718
 Cr 11.9439 Mn 19.3207 Fe 11.82 Co 11.1838 Ni 10.9036 Cu 11.7615 Zn 13.311 Ga 18.4496 Ge 19.3638 As 20.4270 Se 58.6173 Br 33.3170
 Kr 46.7873 Rb 87.3384 Sr 56.1889 Y 33.0792 Zr 23.8327 Nb 17.9685 Mo 15.6279 Tc 14.5458 Ru 13.9206 Rh 13.718 Pd 14.716 Ag 17.1045
 Cd 18.7161 In 26.6861 Sn 29.3238 Sb 27.1733 Te 62.3227 I 24.3807 Xe 59.582 Cs 110.723 Ba 63.253 Hf 23.1748 Ta 18.1323 W 15.7772
 Re 14.8694 Os 14.5485 Ir 14.1558 Pt 15.0591 Au 16.9793 Hg 27.6914 Tl 29.2949 Pb 30.3218 Bi 31.2849""".split():
    if _t[0].isalpha():
        _e = _t
    else:
        VOL[_e] = float(_t)
ALL = sorted(VOL)


def ref(names, conc, vol_per_site):
    return sum(c * (VOL[e] / vol_per_site) ** (1 / 3.) for e, c in zip(names, conc)) / sum(conc)


def same(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(b))


def direct(m, cases, seed):
    """the mixing rule itself, called as the writers call it"""
    rng = random.Random(seed)
    f = resolve("phenum.element_data:get_lattice_parameter")
    for names, conc, lat, nD, rz in cases:
        A, _ = lattices.get(lat)
        v = abs(np.linalg.det(np.array(A))) / nD
        args = [list(names), list(conc), np.array(A).T.copy(), nD, "some title\n", rz]
        before = [list(names), list(conc), np.array(A).T.tolist()]
        lp, title = f(*args[:5], remove_zeros=rz)
        m.event("lattice-parameters")
        m.case((names, conc, str(lat), nD, rz), nontrivial=True)
        want = ref(names, conc, v)
        m.check(same(lp, want), "lattice-parameter", "%s of %s with %g per site: lattice parameter %.6f instead of %.6f" % (conc, names, v, lp, want))
        shown = [e for e, c in zip(names, conc) if c > 0 or not rz]
        m.check(title.split()[:len(shown)] == shown and title.split()[len(shown):len(shown) + 2] == ["some", "title"],
                "title", "the title of %s of %s is %r" % (conc, names, title), remove_zeros=rz)
        m.check([args[0], args[1], args[2].tolist()] == before, "arguments", "the arguments were changed for %s" % names)
        # relations between runs
        present = [i for i, c in enumerate(conc) if c]
        pure = [f([names[i]], [7], np.array(A).T, nD, "t", remove_zeros=rz)[0] for i in present]
        m.check(min(pure) - 1e-9 <= lp <= max(pure) + 1e-9, "between", "the lattice parameter %.6f of %s is not between those of its elements" % (lp, names))
        o = list(range(len(names)))
        rng.shuffle(o)
        lp2 = f([names[i] for i in o], [conc[i] for i in o], np.array(A).T, nD, "t", remove_zeros=rz)[0]
        m.check(same(lp, lp2), "order", "the lattice parameter of %s changes when the species are reordered: %.6f, %.6f" % (names, lp, lp2))
        lp3 = f(names, [3 * c for c in conc], np.array(A).T * 2., nD, "t", remove_zeros=rz)[0]
        m.check(same(lp3 * 2, lp), "scale", "doubling the lattice does not halve the lattice parameter of %s: %.6f, %.6f" % (names, lp, lp3))
        lp0, t0 = f(None, conc, np.array(A).T, nD, "untitled")
        m.check(lp0 == 1. and t0 == "untitled", "unnamed", "without names the lattice parameter is %r and the title %r" % (lp0, t0))
        for wrong in (list(names)[:-1], list(names) + ["Al"]):
            try:
                r = f(wrong, conc, np.array(A).T, nD, "t")
            except ValueError:
                m.event("refusals")
            else:
                m.violate("wrong-number", "%d names for %d species are accepted: %r" % (len(wrong), len(conc), r))


def files(m, lat, k, reqs, names, seed):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, [1, 20], k)
        write_requests(reqs)
        enum(enum=True, super=True, seed=seed)
        h, recs = read_enum_out("enum.out")
        p = parent_of(A, B, h)
        v = abs(np.linalg.det(np.array(A))) / len(B)
        for r in recs[:12]:
            sc, col, dr = cells(p, r)
            conc = [int((col == i).sum()) for i in range(k)]
            for rz in ("t", "f"):
                for sp in (names, None):
                    makestr(structures=[str(r.num)], input="enum.out", outfile="p%s.{}" % rz, species=sp, remove_zeros=rz, mink=rng.choice("tf"))
                    c = read_poscar("p%s.%d" % (rz, r.num))
                    m.event("crystal-files")
                    want = ref(sp, conc, v) if sp else 1.
                    m.case((str(lat), r.line, rz, sp), nontrivial=sp is not None)
                    m.check(abs(c.scale - want) < .00501, "file-parameter", "%s: the crystal file of %s %s states the lattice parameter %s instead of %.4f" % (
                        lat, sp, conc, c.scale_text, want))
                    counts = [x for x in conc if x] if rz == "t" and sp else conc
                    m.check(c.counts == counts, "counts", "%s: the crystal file of %s states the numbers %s" % (lat, conc, c.counts), remove_zeros=rz)
                    if sp:
                        shown = [e for e, x in zip(sp, conc) if x or rz == "f"]
                        m.check(c.title.split()[:len(shown)] == shown and not set(c.title.split()[len(shown):]) & set(VOL),
                                "file-title", "%s: the crystal file of %s %s has the title %r" % (lat, sp, conc, c.title))
            if os.path.exists("o.cfg"):
                os.remove("o.cfg")
            makestr(structures=[str(r.num)], input="enum.out", outfile="o.cfg", species=names, config="t")
            b = read_cfg("o.cfg")[-1]
            m.event("config-blocks")
            lp = (abs(np.linalg.det(b.A)) / (abs(np.linalg.det(p.A)) * sc.n)) ** (1 / 3.)
            want = ref(names, conc, v)
            m.case((str(lat), r.line, "cfg", names))
            m.check(abs(lp - want) < 1e-4 * want, "config-parameter", "%s: the cell of the config block of %s %s has the lattice parameter %.5f instead of %.5f" % (lat, names, conc, lp, want))
            makestr(structures=[str(r.num)], input="enum.out", outfile="o.cfg", species=None, config="t")
            b = read_cfg("o.cfg")[-1]
            lp = (abs(np.linalg.det(b.A)) / (abs(np.linalg.det(p.A)) * sc.n)) ** (1 / 3.)
            m.check(abs(lp - 1) < 1e-4, "config-unnamed", "%s: without names the config block has the lattice parameter %.5f" % (lat, lp))
            for n, sp in enumerate([names + ["Al"], names[:-1]]):
                if not sp:
                    continue
                for cfg in "ft":
                    try:
                        makestr(structures=[str(r.num)], input="enum.out", outfile="bad%d%s.{}" % (n, cfg), species=sp, config=cfg)
                    except (ValueError, CodeExit):
                        m.event("refusals")
                    else:
                        m.violate("wrong-number", "%d names for %d species are accepted while writing (config %s)" % (len(sp), k, cfg))
                    m.check(not [x for x in os.listdir(".") if x.startswith("bad")], "refused-wrote", "a refused request wrote %s" % os.listdir("."))
    m.sample(dict(lattice=lat, species=names))


def pick(rng, k):
    """names of the species; different species may be the same element"""
    x = rng.sample(ALL, k)
    if k > 1 and rng.random() < .25:
        i, j = rng.sample(range(k), 2)
        x[i] = x[j]
    return x


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    cases = []
    for i, e in enumerate(ALL):
        f = ALL[(i * 7 + 3) % len(ALL)]
        cases.append([[e], [rng.randint(1, 9)], rng.choice(list(lattices.LIB)), rng.choice([1, 2, 3]), rng.random() < .5])
        cases.append([[e, f], [rng.randint(1, 5), rng.randint(0, 5)], rng.choice(list(lattices.LIB)), rng.choice([1, 2, 3]), rng.random() < .5])
    for _ in range(1500 if not big else 100000):
        k = rng.randint(1, 6)
        conc = [rng.choice([0, 0, 1, 2, 3, 10, 57]) for _ in range(k)]
        if not sum(conc):
            conc[rng.randrange(k)] = 1
        lat = rng.choice(list(lattices.LIB)) if rng.random() < .5 else lattices.random_lattice(rng)[1]
        if not isinstance(lat, str):
            lat = [lat, [[0., 0., 0.]]]
        cases.append([pick(rng, k), conc, lat, rng.randint(1, 6), rng.random() < .5])
    for i in range(0, len(cases), 400):
        T.append(dict(fn="direct", args=dict(cases=cases[i:i + 400], seed=rng.randrange(10 ** 6))))
    for i in range(24 if not big else 400):
        lat = rng.choice(list(lattices.LIB)) if rng.random() < .5 else lattices.random_parent(rng)
        k = rng.randint(1, 4)
        r = sample_requests(rng, len(lattices.get(lat)[1]), 10, k, 4)
        if r:
            T.append(dict(fn="files", args=dict(lat=lat, k=k, reqs=r, names=pick(rng, k), seed=rng.randrange(10 ** 6)), optional=i > 12))
    return T


main("C18", dict(direct=direct, files=files), tasks,
     "a case is one alloy (names, composition, lattice) or one written crystal; non-trivial when species are named; distinct by all of these")
