"""Invalid requests end with an error and leave nothing that looks like a result; valid ones
made on the command line give what the same request gives when made directly."""
import os, random, re, subprocess, sys
from vlib.harness import main, REPO
from vlib import lattices
from vlib.run import scratch, enum, makestr, write_lattice


def cli(which, args):
    p = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", "-m", "phenum." + which] + args,
                       capture_output=True, text=True, timeout=240)
    return p


def snap():
    out = {}
    for n in sorted(os.listdir(".")):
        with open(n, "rb") as f:
            out[n] = re.sub(rb"Random structure enumeration:[^\n]*?(\d+)?(?=\n)", b"Random structure enumeration", f.read())
    return out


def put(name, text):
    with open(name, "w") as f:
        f.write(text)


# -- invalid requests: name, program, arguments, preparation steps, edits of lattice.in ---------------
def lat_edit(what):
    L = [l for l in open("lattice.in").read().split("\n") if l and not l.startswith("#")]
    kind, arg = what
    nD = int(L[6])
    if kind == "line":
        L[arg[0]] = arg[1]
    elif kind == "cut":
        L = L[:arg]
    elif kind == "drop":
        del L[arg]
    elif kind == "restrict":
        L = L[:7 + nD] + arg
    put("lattice.in", "\n".join(L) + "\n")


def invalid_list(k, nD, n):
    """(name, program, arguments, before, edit, files)"""
    out = []
    ok = "0 1 1"
    for mode in (["-polya"], ["-enum"], ["-distribution", "all", "all"]):
        t = mode[0]
        out.append((t + " without lattice", "enumeration", mode + ["-lattice", "nothing.in"], [], None, {}))
        for nm, e in [("sizes not numbers", ("line", (0, "a b"))), ("one size", ("line", (0, "2"))), ("short vector", ("line", (3, "1.0 2.0"))),
                      ("text vector", ("line", (2, "1.0 x 0.0"))), ("dependent vectors", ("line", (4, "0 0 0"))), ("species not a number", ("line", (5, "two"))),
                      ("too many sites", ("line", (6, str(nD + 2)))), ("sites not a number", ("line", (6, "many"))), ("short site", ("line", (7, "0.0 0.0"))),
                      ("truncated at sizes", ("cut", 1)), ("truncated in vectors", ("cut", 4)), ("truncated at species", ("cut", 6)), ("truncated at sites", ("cut", 7)),
                      ("truncated before restrictions", ("cut", 7 + nD)), ("empty", ("cut", 0)), ("missing vector", ("drop", 3)),
                      ("restriction truncated", ("restrict", ["T"])), ("restrictions for too few species", ("restrict", ["T", "F"] + [ok] * (k - 1))), ("restrictions for too many species", ("restrict", ["T", "F"] + [ok] * (k + 1))),
                      ("no restrictions", ("restrict", ["T", "F"])), ("restriction without denominator", ("restrict", ["T", "F"] + ["0 1"] * k)),
                      ("restriction with zero denominator", ("restrict", ["T", "F"] + ["0 1 0"] * k)), ("text restriction", ("restrict", ["T", "F"] + ["0 x 1"] * k))]:
            out.append((t + " " + nm, "enumeration", mode, [], e, {}))
    for before in (["polya"], []):
        for m0 in ([], ["-enum"]):
            tag = " ".join(m0 + (["with tables"] if before else []))
            out.append(("distribution of unknown kind " + tag, "enumeration", m0 + ["-distribution", "mass", "3"], before, None, {}))
            out.append(("distribution without number " + tag, "enumeration", m0 + ["-distribution", "all"], before, None, {}))
            out.append(("distribution with three arguments " + tag, "enumeration", m0 + ["-distribution", "all", "3", "4"], before, None, {}))
            out.append(("distribution of text " + tag, "enumeration", m0 + ["-distribution", "all", "some"], before, None, {}))
            out.append(("distribution of a fraction " + tag, "enumeration", m0 + ["-distribution", "all", "2.5"], before, None, {}))
            out.append(("distribution over sizes without tables " + tag, "enumeration", m0 + ["-distribution", "all", "3", "-sizes", "1", str(n + 4)], before, None, {}))
            out.append(("filter of unknown kind " + tag, "enumeration", m0 + ["-distribution", "all", "3", "-filter", "mass", "f.in"], before, None, {"f.in": "1 0 1 0 0 1\n"}))
            out.append(("filter without file " + tag, "enumeration", m0 + ["-distribution", "all", "3", "-filter", "shape", "f.in"], before, None, {}))
            out.append(("filter of text " + tag, "enumeration", m0 + ["-distribution", "all", "3", "-filter", "shape", "f.in"], before, None, {"f.in": "a b c d e f\n"}))
        for a in ("1.5", "2", "x"):
            out.append(("acceptance rate %s %s" % (a, before), "enumeration", ["-enum", "-acceptrate", a], before, None, {}))
        out.append(("seed of text", "enumeration", ["-enum", "-seed", "x"], before, None, {}))
        out.append(("one size %s" % before, "enumeration", ["-distribution", "all", "3", "-sizes", "1"], before, None, {}))
    for gone in (1, 2, 3):
        for m0 in ([], ["-enum"]):
            for lo, hi in [(1, 4), (gone, gone + 1)]:    # the stop is not part of the range
                out.append(("distribution over %d up to %d without the table of %d %s" % (lo, hi, gone, m0), "enumeration",
                            m0 + ["-distribution", "all", "3", "-sizes", str(lo), str(hi)], ["tables-but-%d" % gone], None, {}))
    N = 2 * nD
    comp = [N - 1] + [1] + [0] * (k - 2) if k > 1 else [N]
    c = lambda x: " ".join(map(str, x))
    for nm, row in [("composition too large", "1 0 1 0 0 2 %s 3" % c([comp[0] + 1] + comp[1:])), ("composition too small", "1 0 1 0 0 2 %s 3" % c([comp[0] - 1] + comp[1:])),
                    ("cell only", "1 0 1 0 0 2"), ("text", "1 0 1 0 0 2 %s few" % c(comp)), ("flat cell", "1 0 1 0 0 0 %s 3" % c(comp)), ("negative cell", "1 0 1 0 0 -2 %s 3" % c(comp)),
                    ("ragged", "1 0 1 0 0 2 %s 3\n1 0 1 0 0 2 3" % c(comp)), ("good then too large", "1 0 1 0 0 2 %s 3\n1 0 1 0 0 3 %s 3" % (c(comp), c(comp)))]:
        out.append(("requests: " + nm, "enumeration", ["-enum"], [], None, {"enum.in": "# requests\n" + row + "\n"}))
        out.append(("requests: %s, older list" % nm, "enumeration", ["-enum", "-input", "other.in"], ["enum"], None, {"other.in": row + "\n"}))
    names = ["Al", "Cu", "Ni", "W", "Pb"]
    for fmt in ([], ["-config", "t"]):
        tag = " ".join(fmt)
        inp = ["-input", "enum.out"] + fmt
        for nm, a in [("no selection", []), ("three numbers", ["1", "2", "3"]), ("text", ["some"]), ("number and text", ["1", "x"]), ("header line", ["0"]), ("negative", ["-1"]), ("not listed", ["9999999"]), ("range not listed", ["9999998", "9999999"]), ("reversed range", ["2", "1"]), ("from zero", ["0", "2"]),
                      ("too few names", ["all", "-species"] + names[:k - 1]), ("too many names", ["all", "-species"] + names[:k + 1]), ("unknown element", ["all", "-species"] + ["Xx"] + names[:k - 1])]:
            if nm == "too few names" and k == 1:
                continue
            out.append(("crystals: %s %s" % (nm, tag), "phenumStr", a + inp, ["enum"], None, {}))
        out.append(("crystals: no list " + tag, "phenumStr", ["all", "-input", "nothing.out"] + fmt, ["enum"], None, {}))
        out.append(("crystals: default list missing " + tag, "phenumStr", ["all"] + fmt, ["enum"], None, {}))
        out.append(("crystals: displacement of text " + tag, "phenumStr", ["all", "-displace", "much"] + inp, ["enum"], None, {}))
    out.append(("crystals: unknown format", "phenumStr", ["all", "-input", "enum.out", "-config", "x"], ["enum"], None, {}))
    out.append(("crystals: unknown reduction", "phenumStr", ["all", "-input", "enum.out", "-mink", "x"], ["enum"], None, {}))
    if k > 1:
        out.append(("crystals: mapping too short", "phenumStr", ["all", "-input", "enum.out", "-config", "t", "-species_mapping"] + ["3"] * (k - 1), ["enum"], None, {}))
    return out


def prepare(lat, k, n, before, edit, files):
    A, B = lattices.get(lat)
    write_lattice("lattice.in", A, B, [1, n], k)
    if "polya" in before:
        enum(polya=True)
    for x in before:
        if x.startswith("tables-but"):
            write_lattice("lattice.in", A, B, [1, 3], k)
            enum(polya=True)
            os.remove("polya.out." + x[-1])
    if "enum" in before:
        enum(enum=True)
        os.rename("enum.in", "all.in")
        for x in os.listdir("."):
            if x.startswith("polya"):
                os.remove(x)
    if edit:
        lat_edit(edit)
    for nm, t in files.items():
        put(nm, t)


def invalid(m, lat, k, n, picks):
    A, B = lattices.get(lat)
    allr = invalid_list(k, len(B), n)
    # the only files a refused request may leave are complete results of earlier stages
    with scratch():
        prepare(lat, k, n, [], None, {})
        enum(polya=True)
        enum(distribution=["all", "all"])
        fine = snap()
    for i in picks:
        nm, prog, args, before, edit, files = allr[i % len(allr)]
        with scratch():
            prepare(lat, k, n, before, edit, files)
            a = snap()
            p = cli(prog, args)
            b = snap()
            m.event("invalid-requests")
            m.case((str(lat), k, nm), nontrivial=True)
            d = dict(args=args, lattice=lat, output=(p.stdout[-300:], p.stderr[-300:]), files=sorted(b))
            m.check(p.returncode != 0, "accepted", "%s: the request ends normally" % nm, **d)
            gone = [x for x in a if a[x] != b.get(x)]
            m.check(not gone, "altered", "%s: the refused request altered or removed %s" % (nm, gone), **d)
            new = [x for x in b if x not in a]
            m.event("files-watched", len(b))
            left = [x for x in new if not (x.startswith(("polya.out.", "enum.in")) and fine.get(x) == b[x])]
            m.check(not left, "left-behind", "%s: the refused request left %s behind" % (nm, left), content=[b[x][:300].decode(errors="replace") for x in left[:2]], **d)
    m.sample(dict(lattice=lat, requests=[allr[i % len(allr)][0] for i in picks[:4]]))


# -- valid requests ------------------------------------------------------------------------------------
def valid_list(rng, k):
    names = ["Al", "Cu", "Ni", "W"][:k]
    s = str(rng.randrange(1000))
    S = int(s)
    num = rng.randint(2, 9)
    kind = rng.choice(["all", "size", "shape", "conc"])
    disp = rng.choice([.25, -.1])
    return [
        [("enumeration", ["-polya"], dict(polya=True))],
        [("enumeration", ["-polya", "-outfile", "mine", "-lattice", "lattice.in"], dict(polya=True, outfile="mine"))],
        [("enumeration", ["-enum"], dict(enum=True))],
        [("enumeration", ["-enum", "-super", "-seed", s, "-outfile", "x.out"], dict(enum=True, super=True, seed=S, outfile="x.out"))],
        [("enumeration", ["-enum", "-acceptrate", "0.5", "-seed", s], dict(enum=True, acceptrate=.5, seed=S))],
        [("enumeration", ["-polya"], dict(polya=True)), ("enumeration", ["-distribution", kind, str(num), "-savedist", "-seed", s], dict(distribution=[kind, str(num)], savedist=True, seed=S))],
        [("enumeration", ["-distribution", "all", str(num), "-seed", s, "-sizes", "1", "3", "-outfile", "req.in"],
          dict(distribution=["all", str(num)], seed=S, sizes=[1, 3], outfile="req.in")),
         ("enumeration", ["-enum", "-input", "req.in", "-seed", s], dict(enum=True, input="req.in", seed=S))],
        [("enumeration", ["-enum", "-distribution", "all", str(num), "-seed", s], dict(enum=True, distribution=["all", str(num)], seed=S))],
        [("enumeration", ["-distribution", "all", str(num), "-filter", "shape", "f.in", "-seed", s], dict(distribution=["all", str(num)], filter=["shape", "f.in"], seed=S))],
        [("enumeration", ["-enum", "-seed", s], dict(enum=True, seed=S)), ("phenumStr", ["all", "-input", "enum.out"], dict(structures=["all"], input="enum.out")),
         ("phenumStr", ["2", "-input", "enum.out", "-outfile", "one", "-mink", "f"], dict(structures=["2"], input="enum.out", outfile="one", mink="f")),
         ("phenumStr", ["1", "3", "-input", "enum.out", "-outfile", "p{}.vasp", "-species"] + names + ["-remove_zeros", "t"],
          dict(structures=["1", "3"], input="enum.out", outfile="p{}.vasp", species=names, remove_zeros="t")),
         ("phenumStr", ["all", "-input", "enum.out", "-config", "t", "-outfile", "t.cfg", "-displace", str(disp), "-species_mapping"] + [str(i + 2) for i in range(k)],
          dict(structures=["all"], input="enum.out", config="t", outfile="t.cfg", displace=disp, species_mapping=[i + 2 for i in range(k)]))],
        [("enumeration", ["-enum", "-outfile", "struct_enum.out"], dict(enum=True, outfile="struct_enum.out")), ("phenumStr", ["all"], dict(structures=["all"]))],
    ]


def valid(m, lat, k, n, seed, picks):
    rng = random.Random(seed)
    L = valid_list(rng, k)
    f = {"f.in": "# cells\n 1 0 1 0 0 1\n 1 0 1 0 0 2\n"}
    for i in picks:
        runs = L[i % len(L)]
        with scratch():
            prepare(lat, k, n, [], None, f)
            for prog, args, kw in runs:
                (enum if prog == "enumeration" else makestr)(**kw)
            want = snap()
        with scratch():
            prepare(lat, k, n, [], None, f)
            for prog, args, kw in runs:
                p = cli(prog, args)
                m.event("valid-requests")
                if not m.check(p.returncode == 0, "refused", "the valid request %s ends with %d" % (args, p.returncode), error=p.stderr[-400:], lattice=lat):
                    return
            got = snap()
        m.case((str(lat), k, repr(runs)), nontrivial=len(want) > 2)
        m.event("files-watched", len(got))
        m.check(sorted(want) == sorted(got), "command-files", "%s: the command line writes %s instead of %s" % (runs[-1][1], sorted(got), sorted(want)), lattice=lat)
        diff = [x for x in want if x in got and want[x] != got[x]]
        m.check(not diff, "command-contents", "%s: the command line writes other contents into %s" % (runs[-1][1], diff), lattice=lat)
    for prog in ("enumeration", "phenumStr"):
        with scratch():
            p = cli(prog, ["-examples"] if prog == "enumeration" else ["all", "-examples"])
            m.event("valid-requests")
            m.check(p.returncode == 0 and len(p.stdout) > 300 and not os.listdir("."), "examples", "asking %s for examples ends with %d" % (prog, p.returncode), error=p.stderr[-300:])


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    A = ["fcc", "hcp", "tet", "tri", "scO", "sc2", "mono", "fcc4"]
    for j, (k, lat) in enumerate([(2, rng.choice(A)), (3, rng.choice(A))] if not big else [(k, l) for k in (1, 2, 3) for l in A]):
        nD = len(lattices.get(lat)[1])
        n = 3 if nD == 1 else 2
        tot = len(invalid_list(k, nD, n))
        idx = list(range(tot))
        rng.shuffle(idx)
        if not big and j:
            idx = idx[:48]
        for i in range(0, len(idx), 10):
            T.append(dict(fn="invalid", args=dict(lat=lat, k=k, n=n, picks=idx[i:i + 10])))
    for i in range(4 if not big else 40):
        lat = rng.choice(A) if rng.random() < .6 else lattices.random_parent(rng)
        k = rng.choice([2, 2, 3])
        T.append(dict(fn="valid", args=dict(lat=lat, k=k, n=3 if len(lattices.get(lat)[1]) == 1 else 2, seed=rng.randrange(10 ** 6), picks=rng.sample(range(11), 5) if not big else list(range(11)))))
    return T


main("C23", dict(invalid=invalid, valid=valid), tasks,
     "a case is one command line run in a folder of its own; every invalid one and every valid one that writes results is non-trivial; distinct by crystal and command")
