"""Same input and seed: same bytes in every process and environment."""
import os, re, sys, json, subprocess, random
from vlib.harness import main, OracleError
from vlib import lattices
from vlib.run import scratch, write_lattice

STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?")
HERE = os.path.dirname(os.path.abspath(__file__))
DRIVER = os.path.join(os.path.dirname(HERE), "lib", "vlib", "stage.py")


def files():
    out = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.join(d, f)
            with open(p) as g:
                out[p] = STAMP.sub("<time>", g.read())
    return out


def process(stages, hashseed, listing, noise, env=None):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e.update(env or {})
    r = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", DRIVER,
                        json.dumps(dict(stages=stages, listing=listing, noise=noise))],
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return r.returncode, r.stderr.decode()[-800:]


STRAY = ["xpolya.out.3", "old.polya.out.2", "README", "notes.in"]


def one(lat, inp, stages, var):
    """one run of all stages under the variation var; returns the files"""
    A, B = lattices.get(lat)
    with scratch():
        rng = random.Random(var["order"])
        if var["deep"]:
            os.makedirs("a b/c")
            os.chdir("a b/c")
        stray = STRAY[:] if var["stray"] else []
        rng.shuffle(stray)
        for s in stray[:2]:
            open(s, "w").write("7\n")
        write_lattice("lattice.in", A, B, inp["sizes"], inp["k"], inp.get("concs"), inp.get("arrows"))
        for s in stray[2:]:
            open(s, "w").write("7\n")
        groups = [[s] for s in stages] if var["separate"] else [stages]
        for i, g in enumerate(groups):
            rc, err = process(g, var["hash"] + i if var["hash"] else 0, var["listing"], var["noise"], var.get("env"))
            if rc != 0:
                return dict(failed="exit status %d: %s" % (rc, err))
            if var["order"]:
                # recreate the tables in another order
                t = [f for f in os.listdir(".") if f.startswith("polya.out.")]
                rng.shuffle(t)
                for f in t:
                    x = open(f).read()
                    os.remove(f)
                    open(f, "w").write(x)
        for s in stray:
            os.remove(s)
        return files()


def run(m, lat, inp, stages, variations):
    ref = None
    base = dict(order=0, deep=False, stray=False, separate=False, hash=0, listing=0, noise=0)
    ref = one(lat, inp, stages, base)
    if "failed" in ref:
        m.violate("failed", "valid input failed in a fresh process: " + ref["failed"])
        return
    m.event("processes", 1)
    for v in variations:
        var = dict(base, **v)
        got = one(lat, inp, stages, var)
        m.event("processes", len(stages) if var["separate"] else 1)
        m.event("files-compared", len(got))
        m.case((str(lat), str(inp), str(stages), str(v)), nontrivial=len(ref) > 1)
        if "failed" in got:
            m.violate("failed", "the run failed under %s only: %s" % (v, got["failed"]))
            continue
        for f in sorted(set(ref) | set(got)):
            if ref.get(f) != got.get(f):
                a, b = ref.get(f), got.get(f)
                if a is None or b is None:
                    what = "%s exists in one of the runs only" % f
                else:
                    i = next((i for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))) if x != y), -1)
                    what = "%s differs in line %d: %r and %r" % (f, i + 1, a.split("\n")[i][:150], b.split("\n")[i][:150])
                m.violate("differs", "%s, with %s" % (what, v), lattice=lat, input=inp, stages=stages)
                break
    m.sample(dict(lattice=lat, files=sorted(ref)[:8], variations=len(variations)))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    def variations(n):
        out = []
        for i in range(n):
            out.append(dict(order=rng.choice([0, rng.randint(1, 99)]), deep=rng.random() < .5, stray=rng.random() < .5, separate=rng.random() < .5,
                            hash=rng.randint(1, 10 ** 6), listing=rng.choice([0, rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 6)]),
                            noise=rng.choice([0, rng.randint(1, 10 ** 6)]),
                            env=rng.choice([{}, {"LC_ALL": "C", "TZ": "Asia/Tokyo"}, {"PYTHONOPTIMIZE": "1"}, {"COLUMNS": "40", "HOME": "/nonexistent"}])))
        # one of each kind in any case
        out[0].update(separate=True)
        out[1].update(listing=rng.randint(1, 99), order=rng.randint(1, 99))
        out[2].update(noise=rng.randint(1, 10 ** 6), listing=0, order=0, stray=False)
        return out
    arr = dict(sizes=[1, 3], k=2, concs=[[0, 1, 1], [0, 1, 1]], arrows=[.5, .5])
    conc = dict(sizes=[2, 4], k=3, concs=[[1, 2, 4], [0, 1, 2], [0, 1, 2]])
    plain = lambda a, b, k=2: dict(sizes=[a, b], k=k)

    def stages(kind, n, seed, mid=None, accept=None, ms=True):
        S = [["enum", dict(polya=True)]]
        S.append(["enum", dict(distribution=[kind, n], seed=seed, savedist=True, outfile="enum.in" if kind == "all" else "dist.out", sizes=mid)])
        if kind == "all":
            S.append(["enum", dict(enum=True, seed=seed, acceptrate=accept)])
            if ms:
                S.append(["str", dict(structures=["all"], displace=.1, input="enum.out")])
                S.append(["str", dict(structures=["all"], mink="f", input="enum.out", outfile="cfg.{}")])
        return S
    inputs = [("fcc", plain(1, 5), "all"), ("hcp", plain(1, 2), "all"), ("sc", arr, "all"), ("tri", conc, "all"), ("bcc", plain(1, 4, 3), "all"),
              ("gen2", plain(1, 2), "all"), ("fcc", plain(1, 5), "shape"), ("sc", plain(1, 4), "conc"), ("bcc", plain(1, 5), "size"), ("tri", dict(sizes=[9, 10], k=1), "all")]
    if not big:
        first = inputs
    else:
        first = inputs * 3
        for i in range(30):
            lat = lattices.random_parent(rng, nD=rng.choice([1, 2]))
            first.append((lat, plain(1, 4 // len(lat[1]) + 1), "all"))
    for i, (lat, inp, kind) in enumerate(first):
        n = str(rng.choice([3, 7, 12, 20]))
        S = stages(kind, n, rng.randint(0, 10 ** 6), accept=rng.choice([None, None, .6]))
        T.append(dict(fn="run", args=dict(lat=lat, inp=inp, stages=S, variations=variations(4 if not big else 8)), optional=i > 10))
    # the random search, and the program making the missing files itself
    T.append(dict(fn="run", args=dict(lat="fcc", inp=plain(12, 12, 3), stages=[["enum", dict(polya=True)], ["enum", dict(distribution=["all", "30"], seed=5)],
              ["enum", dict(enum=True, seed=5)]], variations=variations(3)), cpu=400, optional=True) if big else
             dict(fn="run", args=dict(lat="sc", inp=dict(sizes=[1, 2], k=3, concs=[[0, 1, 1]] * 3, arrows=[0, .5, 1.]), stages=[["enum", dict(enum=True, seed=11, distribution=["all", "9"])]], variations=variations(3))))
    T.append(dict(fn="run", args=dict(lat="bct", inp=plain(1, 4), stages=[["enum", dict(enum=True, seed=3)]], variations=variations(3))))
    T.append(dict(fn="run", args=dict(lat="tet", inp=plain(2, 4), stages=[["enum", dict(distribution=["all", "10"], seed=8, outfile="enum.in", sizes=[2, 4])], ["enum", dict(enum=True, seed=3)]],
                                      variations=variations(3))))
    # everything asked for in one command while the enum.in made before asks for part of the structures
    for lat, inp, n, acc in [("fcc", plain(5, 6), "9", None), ("sc", plain(4, 5, 3), "12", .7)] + ([("hcp", plain(2, 3), "11", None), ("tri", plain(5, 7), "20", .5)] if big else []):
        T.append(dict(fn="run", args=dict(lat=lat, inp=inp, stages=[["enum", dict(polya=True)], ["enum", dict(distribution=["all", n], seed=rng.randint(0, 10 ** 6), outfile="enum.in")],
                  ["enum", dict(enum=True, seed=rng.randint(0, 10 ** 6), distribution=["all", n], acceptrate=acc)]], variations=variations(3))))
    return T


main("C12", dict(run=run), tasks,
     "a case is one comparison of a perturbed process with the reference process; distinct by input, stages and perturbation", cpu=300)
