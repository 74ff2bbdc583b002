"""Asking for structures writes exactly those structures."""
import os, random, shutil
from vlib.harness import main
from vlib import lattices
from vlib.crystal import parent_of, write_requests, sample_requests, rewrite_directions
from vlib.run import scratch, enum, makestr, write_lattice, read_enum_out

PATTERNS = [None, "vasp.{}", "POSCAR", "poscar_{}.vasp", "{}", "s-{}-x", "out/{}", "a.b", "out/str"]


def snapshot():
    out = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            with open(p, "rb") as h:
                out[p] = h.read()
    return out


def freeze(opt):
    return tuple(sorted((a, tuple(b) if isinstance(b, list) else b) for a, b in opt.items()))


def fname(pattern, n):
    pattern = pattern or "vasp.{}"
    return pattern.replace("{}", str(n)) if "{}" in pattern else pattern + ".%d" % n


def run(m, lat, sizes, k, reqs, seed, steps, picked):
    rng = random.Random(seed)
    A, B = lattices.get(lat)
    with scratch():
        write_lattice("lattice.in", A, B, sizes, k)
        if reqs:
            write_requests(reqs)
        enum(enum=True, super=True, seed=seed)
        h, recs = read_enum_out("enum.out")
        if len(recs) < 2:
            return
        parent_of(A, B, h)
        rewrite_directions("enum.out", rng, recs, .5)
        lead = open("enum.out").read().split("\n")
        nh = 14 + h["nD"]
        rows = [l for l in lead[nh:] if l.strip()]
        if picked:          # a hand-picked list keeps its structure numbers
            keep = sorted(rng.sample(range(len(rows)), max(1, len(rows) // 2)))
            rows = [rows[i] for i in keep]
            if picked == "shuffled":
                rng.shuffle(rows)
        name = rng.choice(["enum.out", "struct_enum.out", "chosen"])
        tail = rng.choice(["", "", "\n", "# end\n"]) if picked else ""
        with open(name, "w") as f:
            f.write("\n".join(lead[:nh] + rows) + "\n" + tail)
        if name != "enum.out":
            os.remove("enum.out")
        os.mkdir("out")
        nums = [int(l.split()[0]) for l in rows]
        top = max(nums)
        # what every structure looks like when it is asked for alone, in a folder of its own, from
        # the full list
        alone = {}
        for i, opt in enumerate(sorted({freeze(s["opt"]) for s in steps}, key=str)):
            for n in nums:
                d = os.path.join("single", "%d" % i, "%d" % n)
                os.makedirs(d)
                shutil.copy(name, os.path.join(d, "list"))
                os.chdir(d)
                kw = {a: (list(b) if isinstance(b, tuple) else b) for a, b in opt}
                makestr(structures=[str(n)], input="list", **kw)
                files = snapshot()
                os.chdir("../../..")
                m.event("single-requests")
                got = sorted(set(files) - {"list"})
                if not m.check(got == ["vasp.%d" % n], "single", "%s: asking for structure %d of %s writes %s" % (lat, n, nums[:30], got)):
                    return
                alone[opt, n] = files["vasp.%d" % n]
        shutil.rmtree("single")
        for st in steps:
            sel = st["sel"]
            if sel == "one":
                want = [rng.choice(nums)]
                arg = [str(want[0])]
            elif sel == "all":
                want = nums
                arg = [rng.choice(["all", "all", "ALL", "All"])]
            else:
                x = rng.choice(nums)        # the range meets the list
                a = rng.randint(max(1, x - 6), x)
                b = rng.randint(x, min(top, x + 6))
                if sel == "toend":
                    b = top
                if sel == "equal":
                    a = b = rng.choice(nums)
                arg = [str(a), str(b)]
                want = [n for n in nums if a <= n <= b]
            opt = freeze(st["opt"])
            kw = {a: (list(b) if isinstance(b, tuple) else b) for a, b in opt}
            if st["pattern"]:
                kw["outfile"] = st["pattern"]
            before = snapshot()
            makestr(structures=arg, input=name, **kw)
            after = snapshot()
            tag = "%s, list of %d, selection %s, name %s" % (lat, len(nums), arg, st["pattern"])
            m.event("requests")
            target = {fname(st["pattern"], n): n for n in want}
            lost = sorted(set(before) - set(after))
            new = set(after) - set(before)
            touched = sorted(x for x in before if x in after and before[x] != after[x] and x not in target)
            m.check(not lost and not touched, "other-files", "%s: files lost %s, altered %s" % (tag, lost, touched))
            missing = sorted(set(target) - set(after))
            extra = sorted(new - set(target))
            m.check(not missing, "not-written", "%s: no file for %d of %d structures: %s" % (tag, len(missing), len(want), missing[:5]), numbers=nums[:60])
            m.check(not extra, "not-asked", "%s: files nobody asked for: %s" % (tag, extra[:5]), numbers=nums[:60])
            for f, n in target.items():
                if f in after:
                    m.event("files-judged")
                    m.check(after[f] == alone[opt, n], "other-structure", "%s: file %s does not hold structure %d" % (tag, f, n),
                            written=after[f].decode("latin1")[:500], expected=alone[opt, n].decode("latin1")[:500])
            m.case((str(lat), sizes, k, picked, arg, st["pattern"], opt, len(nums)), nontrivial=len(nums) > 1)
            if rng.random() < .4:
                for f in target:
                    os.remove(f)
    m.sample(dict(lattice=lat, structures=len(nums), picked=picked, steps=steps[:2]))


EL = ["Al", "Ni", "Cu", "Pd", "Ti", "W"]


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def steps(k):
        opts = [dict(), dict(species=tuple(rng.sample(EL, k)), remove_zeros=rng.choice("tf")), dict(mink="f", displace=.1)]
        rng.shuffle(opts)
        return [dict(sel=rng.choice(["one", "all", "range", "range", "toend", "equal"]), pattern=rng.choice(PATTERNS), opt=rng.choice(opts[:2])) for _ in range(8)]

    def add(lat, optional=False):
        A, B = lattices.get(lat)
        k = rng.choice([2, 2, 3])
        top = {1: 5, 2: 3, 3: 2}.get(len(B), 1) - (k == 3)
        sizes = [1, max(1, top)]
        reqs = None
        if len(B) > 3 or top < 2 or rng.random() < .3:
            reqs = sample_requests(rng, len(B), 9, k, 6)
            sizes = [1, 4]
        T.append(dict(fn="run", args=dict(lat=lat, sizes=sizes, k=k, reqs=reqs, seed=rng.randrange(10 ** 6), steps=steps(k),
                      picked=rng.choice([None, None, "some", "shuffled"])), optional=optional))
    for lat in lattices.LIB:
        for _ in range(2 if not big else 30):
            add(lat)
    for i in range(20 if not big else 800):
        add(lattices.random_parent(rng), i > 8)
    return T


main("C26", dict(run=run), tasks,
     "a case is one request to write structures of one list; non-trivial when the list has several structures; distinct by list, selection, name pattern and options")
