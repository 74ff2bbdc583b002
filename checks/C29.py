"""How much is reported, and in which form, has no influence on the results."""
import json, os, random, re, subprocess, sys, types
from vlib.harness import main, resolve, Unavailable
from vlib import lattices, enumcheck
from vlib.geom import Parent, all_hnfs
from vlib.run import scratch, enum, makestr, write_lattice

STUB = '''"""stands in for the progress bar, which isn't installed here"""
import os


def _log(text):
    with open(os.environ["VERIF_BARS"], "a") as f:
        f.write(text + "\\n")


class tqdm(object):
    def __init__(self, iterable=None, *a, **k):
        self.iterable = iterable
        _log("open")

    def __iter__(self):
        for x in self.iterable:
            _log("update")
            yield x

    def update(self, n=1):
        _log("update")

    def close(self):
        _log("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    set_description = set_postfix = refresh = write = close
'''
STAMP = re.compile(rb"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?)")


def bars(m, path):
    """what the progress bars were told"""
    if os.path.exists(path):
        for l in open(path):
            m.event("bar-" + l.strip())


def snap():
    out = {}
    for n in sorted(os.listdir(".")):
        with open(n, "rb") as f:
            out[n] = STAMP.sub(b"<time>", f.read())
    return out


def compare(m, tag, ref, got, how):
    if got == ref:
        return
    names = sorted(n for n in set(ref) | set(got) if ref.get(n) != got.get(n))
    n = names[0]
    if n not in ref or n not in got:
        m.violate("files", "%swith %s the file %s is %s" % (tag, how, n, "missing" if n in ref else "additional"))
        return
    a, b = ref[n].split(b"\n"), got[n].split(b"\n")
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    m.violate("differs", "%swith %s, %s differs in line %d (%d and %d lines): %r and %r" % (tag, how, n, i + 1, len(a), len(b), a[i:i + 1], b[i:i + 1]))


def prepare(lat, inp):
    A, B = lattices.get(lat)
    write_lattice("lattice.in", A, B, inp["sizes"], inp["k"], inp.get("concs"), inp.get("arrows"))
    if inp.get("requests"):
        with open("enum.in", "w") as f:
            f.write("# requests\n" + inp["requests"])


def command(which, args, env):
    return subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", "-m", "phenum." + which] + args,
                          capture_output=True, text=True, timeout=600, env=env)


def cli(m, lat, inp, stages, opts):
    """the programs on the command line, with and without the options"""
    tag = "%s %s: " % (lat, inp)
    with scratch() as top:
        lib = os.path.join(top, "lib")
        os.mkdir(lib)
        with open(os.path.join(lib, "tqdm.py"), "w") as f:
            f.write(STUB)
        env = dict(os.environ, VERIF_BARS=os.path.join(top, "bars"))
        env["PYTHONPATH"] = lib + os.pathsep + env.get("PYTHONPATH", "")
        seen = {}
        for i, o in enumerate([[]] + opts):
            d = os.path.join(top, "run%d" % i)
            os.mkdir(d)
            os.chdir(d)
            prepare(lat, inp)
            steps = []
            for which, args in stages:
                r = command(which, o + args if i % 2 else args + o, env)
                if r.returncode != 0 and i == 0:
                    m.violate("failed", tag + "%s %s fails: %s" % (which, args, r.stderr[-300:]))
                    return
                if r.returncode != 0:
                    m.violate("failed", tag + "%s %s fails with %s only: %s" % (which, args, o, r.stderr[-300:]))
                    break
                m.event("commands")
                steps.append(snap())
            else:
                if i == 0:
                    ref = steps
                else:
                    for a, b in zip(ref, steps):
                        compare(m, tag, a, b, " ".join(o))
                        m.event("files-compared", len(a))
                    m.case((str(lat), str(inp), str(stages), str(o)), nontrivial=len(ref[-1]) > 2)
        # the examples write nothing and do nothing else that was asked for
        os.chdir(top)
        d = os.path.join(top, "examples")
        os.mkdir(d)
        os.chdir(d)
        prepare(lat, inp)
        before = snap()
        also = [[], ["-verbose"], ["-debug"], ["-action", "save"], ["-verbose", "-debug"]]
        for i, (which, args) in enumerate(stages):
            o = also[i % len(also)]
            r = command(which, [o + args + ["-examples"], ["-examples"] + args + o, args + ["-examples"] + o][i % 3], env)
            m.event("commands")
            m.check(r.returncode == 0 and r.stdout.strip() and not r.stderr.strip(), "examples", tag + "%s %s -examples: status %d, %d characters, %s" % (which, args + o, r.returncode, len(r.stdout), r.stderr[-300:]))
            m.check(snap() == before, "examples-write", tag + "%s %s -examples leaves %s" % (which, args + o, sorted(snap())))
        for which in ("enumeration", "phenumStr"):
            for o in also:
                r = command(which, o + ["-examples"], env)
                m.event("commands")
                m.check(r.returncode == 0 and r.stdout.strip(), "examples", tag + "%s %s -examples: status %d, %d characters, %s" % (which, o, r.returncode, len(r.stdout), r.stderr[-300:]))
        m.check(snap() == before, "examples-write", tag + "-examples leaves %s" % sorted(snap()))
        m.case((str(lat), str(inp), "examples"))
        bars(m, os.path.join(top, "bars"))
        os.chdir(top)


def direct(m, lat, inp, stages, levels):
    """the same requests made directly, at several levels of reporting"""
    try:
        verbosity, quiet = resolve("phenum.msg:set_verbosity"), resolve("phenum.msg:set_quiet")
    except Unavailable:
        m.notes.append("no reporting levels")
        return
    tag = "%s %s: " % (lat, inp)
    stub = types.ModuleType("tqdm")
    exec(STUB, stub.__dict__)
    sys.modules["tqdm"] = stub
    with scratch() as top:
        os.environ["VERIF_BARS"] = os.path.join(top, "bars")
        ref = None
        for i, (v, q) in enumerate([(None, None)] + [tuple(x) for x in levels]):
            d = os.path.join(top, "run%d" % i)
            os.mkdir(d)
            os.chdir(d)
            prepare(lat, inp)
            verbosity(v)
            quiet(q)
            try:
                for kind, args in stages:
                    (enum if kind == "enumeration" else makestr)(**args)
            except Exception as e:
                if i == 0:
                    raise
                m.violate("failed", tag + "%s fails at reporting level %r (quiet %r): %r" % (kind, v, q, e))
                continue
            finally:
                verbosity(None)
                quiet(None)
            m.event("runs")
            if i == 0:
                ref = snap()
            else:
                compare(m, tag, ref, snap(), "reporting level %r, quiet %r" % (v, q))
                m.event("files-compared", len(ref))
                m.case((str(lat), str(inp), str(stages), v, q), nontrivial=len(ref) > 2)
        bars(m, os.environ["VERIF_BARS"])
        os.chdir(top)
    m.sample(dict(lattice=lat, input=inp, stages=stages, levels=levels, files=sorted(ref)[:8]))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    allopts = [["-verbose"], ["-debug"], ["-action", "save"], ["-verbose", "-debug", "-action", "print"]]
    plain = lambda a, b, k=2: dict(sizes=[a, b], k=k)
    arr = dict(sizes=[1, 3], k=2, concs=[[0, 1, 1]] * 2, arrows=[.5, .5])

    def stages(n, seed):
        s = ["-seed", str(seed)]
        return [["enumeration", ["-polya"]], ["enumeration", ["-distribution", "all", n] + s], ["enumeration", ["-enum"] + s],
                ["phenumStr", ["all", "-input", "enum.out"]], ["phenumStr", ["1", "-input", "enum.out", "-config", "t", "-species", "Al", "Cu"]]]
    for lat, inp, n in [("fcc", plain(1, 4), "all"), ("hcp", plain(1, 3), "9"), ("sc", arr, "12"), ("fcc", plain(18, 18), "4")][:4 if big else 3]:
        T.append(dict(fn="cli", args=dict(lat=lat, inp=inp, stages=stages(n, rng.randrange(1000)), opts=rng.sample(allopts, 3) if not big else allopts), optional=lat == "hcp"))

    def dstages(n, seed, accept=None, sup=False, kind="all"):
        S = [["enumeration", dict(polya=True)], ["enumeration", dict(distribution=[kind, n], seed=seed, savedist=True, outfile="enum.in" if kind == "all" else "dist.out")]]
        if kind == "all":
            S += [["enumeration", dict(enum=True, seed=seed, acceptrate=accept, super=sup)], ["phenumStr", dict(structures=["all"], input="enum.out")]]
        return S
    lev = lambda: [[rng.choice([True, 1]), None], [rng.choice([2, 3]), rng.choice([None, True])], [rng.choice([None, 0, False]), True]]
    D = [("bcc", plain(1, 5), dict(n="all")), ("dia", plain(1, 3), dict(n="25")), ("sc", arr, dict(n="all")), ("sc", arr, dict(n="20")),
         ("tri", plain(1, 4, 3), dict(n="all", accept=.5)), ("fcc", dict(sizes=[1, 3], k=1, concs=[[0, 1, 1]], arrows=[1.]), dict(n="all")),
         ("bct", dict(sizes=[1, 3], k=1, concs=[[0, 1, 1]], arrows=[1.]), dict(n="15")), ("orth", plain(1, 5), dict(n="30", kind="shape")),
         ("fcc", plain(1, 4), dict(n="all", sup=True)), ("hex", plain(2, 4, 3), dict(n="40", kind="conc"))]
    for lat, inp, o in D:
        T.append(dict(fn="direct", args=dict(lat=lat, inp=inp, stages=dstages(seed=rng.randrange(1000), **o), levels=lev())))
    # few structures out of very many are picked at random
    row = lambda h, c, n: "%s  %s  %d\n" % (" ".join(map(str, h)), " ".join(map(str, c)), n)
    for h, k, c, ar in [((1, 0, 1, 0, 0, 20), 2, (9, 11), None), ((1, 0, 2, 1, 1, 6), 2, (5, 7), [.5, 0.]), ((1, 0, 1, 0, 2, 12), 3, (4, 4, 4), None)]:
        T.append(dict(fn="asked", args=dict(lat=rng.choice(["fcc", "sc", "orth"]), k=k, arrows=ar, text=row(h, c, 7), levels=lev(), seed=rng.randrange(1000))))
    for i in range(6 if not big else 80):
        lat = lattices.random_parent(rng, nD=rng.choice([1, 1, 2]))
        k = rng.choice([2, 2, 3])
        n = 4
        arrows = [rng.choice([0, .5, 1.]) for _ in range(k)] if rng.random() < .4 and Parent(*lat).axes_permuting() else None
        while n > 1 and enumcheck.work(n * len(lat[1]), k, [[0, 1, 1]] * k, arrows) * len(all_hnfs(n)) > (1500 if not big else 20000):
            n -= 1
        if enumcheck.work(n * len(lat[1]), k, [[0, 1, 1]] * k, arrows) > 4000:
            continue
        inp = dict(sizes=[1, n], k=k, concs=[[0, 1, 1]] * k if arrows else None, arrows=arrows)
        T.append(dict(fn="direct", args=dict(lat=lat, inp=inp, stages=dstages(rng.choice(["all", "5", "17"]), rng.randrange(1000), rng.choice([None, .7]), rng.random() < .5), levels=lev()), optional=True))
    return T


def asked(m, lat, k, arrows, text, levels, seed):
    h = [int(x) for x in text.split()[:6]]
    n = h[0] * h[2] * h[5]
    inp = dict(sizes=[n, n], k=k, concs=[[0, 1, 1]] * k if arrows else None, arrows=arrows, requests=text)
    direct(m, lat, inp, [["enumeration", dict(enum=True, seed=seed)]], levels)


main("C29", dict(cli=cli, direct=direct, asked=asked), tasks,
     "a case is one run at another level of reporting compared with the plain run; distinct by crystal, request and options", cpu=300)
