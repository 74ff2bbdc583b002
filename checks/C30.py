"""A run that breaks off part-way leaves nothing half-finished and can be repeated.

The starts of the functions of the computing modules are watched (sys.monitoring): an undisturbed run counts their calls, then the
same run is repeated and one of these calls ends with an error, as an interrupt or a lack of memory does."""
import os, random, re, sys, time
from vlib.harness import main, resolve
from vlib import lattices
from vlib.geom import Parent
from vlib.run import scratch, enum, makestr, write_lattice, CodeExit

COMPUTE = ("HNFs.py", "grouptheory.py", "symmetry.py", "polyaburnside.py", "tree.py", "phonons.py", "vector_utils.py", "element_data.py", "numerics.py")


class Broken(Exception):
    """the injected failure"""


class Counter(object):
    """counts the calls into the computing modules; at the given one it raises"""

    def __init__(self, at=None, kind=None):
        self.at, self.kind, self.n, self.where = at, kind, 0, None
        import phenum
        self.dir = os.path.dirname(os.path.abspath(phenum.__file__))
        self.known = {}

    def start(self, code, offset):
        ok = self.known.get(code)
        if ok is None:
            d, b = os.path.split(os.path.abspath(code.co_filename))
            ok = self.known[code] = d == self.dir and b in COMPUTE and not code.co_name.startswith("<module")
        if not ok:
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at:
            self.where = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
            raise self.kind("injected")

    def run(self, calls):
        mon = sys.monitoring
        mon.use_tool_id(4, "breaks")
        mon.register_callback(4, mon.events.PY_START, self.start)
        mon.set_events(4, mon.events.PY_START)
        mon.restart_events()
        try:
            plainly(calls)
        finally:
            mon.set_events(4, 0)
            mon.register_callback(4, mon.events.PY_START, None)
            mon.free_tool_id(4)


def plainly(calls):
    for kind, kw in calls:
        (enum if kind == "enum" else makestr)(**kw)


def snap():
    out = {}
    for n in sorted(os.listdir(".")):
        with open(n, "rb") as f:
            out[n] = re.sub(rb"Random structure enumeration:[^\n]*?(\d+)?(?=\n)", rb"Random structure enumeration", f.read())
    return out


def prefix_of_blocks(part, whole):
    """one or more blocks of the whole, from the beginning"""
    end = b"END_CFG"
    if part == b"":
        return False
    return whole.startswith(part) and part.rstrip().endswith(end)


def breaks(m, lat, k, sizes, concs, arrows, before, calls, points, seed, config=None):
    A, B = lattices.get(lat)
    rng = random.Random(seed)

    folder = {}

    def prepare():
        if not folder:
            write_lattice("lattice.in", A, B, sizes, k, concs, arrows)
            plainly(before)
            for n in os.listdir("."):
                with open(n, "rb") as f:
                    folder[n] = f.read()
        for n, t in folder.items():
            with open(n, "wb") as f:
                f.write(t)
    for mod in COMPUTE:
        __import__("phenum." + mod[:-3])
    with scratch():
        prepare()
        start = snap()
        c = Counter()
        c.run(calls)
        whole = snap()
    tot = c.n
    m.event("calls-watched", tot)
    if tot == 0:
        m.event("no-call-watched")
        return
    at = {1, 2, tot, tot - 1, max(1, tot - 7)} | {rng.randint(1, tot) for _ in range(points)} | {max(1, tot * j // (points + 1)) for j in range(1, points + 1)}
    tag = "%s sizes %s k=%d %s" % (lat, sizes, k, calls)
    done = 0
    for j in sorted(x for x in at if 1 <= x <= tot):
        kind = rng.choice([KeyboardInterrupt, MemoryError, Broken])
        with scratch():
            prepare()
            c = Counter(j, kind)
            failed = None
            try:
                c.run(calls)
            except (KeyboardInterrupt, MemoryError, Broken, CodeExit) as e:
                failed = type(e).__name__
            left = snap()
            d = dict(lattice=lat, species=k, sizes=sizes, calls=calls, broken_at="call %d of %d" % (j, tot), error=kind.__name__, where=c.where, files=sorted(left))
            if c.where is None:
                m.event("calls-differ")
                continue
            m.event("breaks-injected")
            m.event("files-watched", len(left))
            new = sorted(x for x in left if left[x] != start.get(x))
            m.case((tag, j), nontrivial=True)
            if failed is None:
                m.check(left == whole, "unnoticed", "%s: the run ends normally although %s failed, with other results" % (calls, c.where), **d)
            if new:
                m.event("breaks-with-results")
            for x in start:
                m.check(x in left, "removed", "%s: broken off in %s: %s is gone" % (calls, c.where, x), **d)
            half = [x for x in new if not (left[x] == whole.get(x) or (x == config and prefix_of_blocks(left[x], whole[x])))]
            m.check(not half, "half-finished", "%s: broken off in %s, the run leaves %s, which %s" % (
                calls, c.where, half, "no undisturbed run writes" if half and half[0] not in whole else "is not what an undisturbed run writes"),
                content=[left[x][-300:].decode(errors="replace") for x in half[:2]], **d)
            # repeating the request in the same folder and the same process
            if config is not None and config in left:
                os.remove(config)
            try:
                plainly(calls)
            except BaseException as e:
                m.violate("not-repeatable", "%s: broken off at call %d, repeating it ends with %s: %s" % (calls, j, type(e).__name__, str(e)[:200]), **d)
                continue
            again = snap()
            diff = sorted(x for x in set(again) | set(whole) if again.get(x) != whole.get(x))
            m.event("runs-repeated")
            m.check(not diff, "repeated", "%s: broken off in %s and repeated, the run gives other contents of %s" % (calls, d["where"], diff),
                    got=[(again.get(x) or b"")[-200:].decode(errors="replace") for x in diff[:2]], want=[(whole.get(x) or b"")[-200:].decode(errors="replace") for x in diff[:2]], **d)
            done += 1
    m.sample(dict(lattice=lat, calls=calls, watched_calls=tot, broken=done))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"
    pool = ["fcc", "bcc", "sc", "tet", "hex", "orth", "hcp", "dia", "sc2", "tri"]
    for i in range(12 if not big else 160):
        if i % 6 == 5:
            lat, k, sizes = rng.choice(["tet", "sc", "fcc", "orth"]), 2, [1, 3]
            concs, arrows = [[0, 1, 1]] * 2, [rng.choice([.5, 1.]), rng.choice([0., .5])]
        else:
            lat = rng.choice(pool) if rng.random() < .7 else lattices.random_parent(rng, nD=rng.choice([1, 2]), skew=False)
            nD = len(lattices.get(lat)[1])
            k, sizes, concs, arrows = rng.choice([(2, [1, {1: 4, 2: 3}.get(nD, 2)]), (3, [1, 3 if nD == 1 else 2]), (2, [2, 3 if nD == 1 else 2])]) + (None, None)
        lists = [[("enum", dict(polya=True))], [("enum", dict(enum=True))], [("enum", dict(enum=True, super=True, outfile="mine.out"))],
                 [("enum", dict(distribution=["all", "all"]))], [("enum", dict(polya=True, outfile="counts"))],
                 [("enum", dict(polya=True)), ("enum", dict(distribution=["all", "all"])), ("enum", dict(enum=True))]]
        S = dict(structures=["all"], input="enum.out")
        strs = [(dict(S), None), (dict(S, mink="f", displace=.1), None), (dict(S, outfile="t.cfg", config="t"), "t.cfg"),
                (dict(S, outfile="p{}.vasp", species=["Al", "Cu", "Ni"][:k]), None), (dict(S, structures=["2", "4"]), None)]
        T.append(dict(fn="breaks", args=dict(lat=lat, k=k, sizes=sizes, concs=concs, arrows=arrows, before=[], calls=lists[i % len(lists)],
                                             points=4 if not big else 14, seed=rng.randrange(10 ** 6)), optional=i > 7, cpu=600))
        kw, cfg = strs[i % len(strs)]
        T.append(dict(fn="breaks", args=dict(lat=lat, k=k, sizes=[1, min(sizes[1], 3)], concs=concs, arrows=arrows, before=[("enum", dict(enum=True))], calls=[("str", kw)],
                                             points=4 if not big else 14, seed=rng.randrange(10 ** 6), config=cfg), optional=i > 7, cpu=600))
        if i % 3 == 0:     # the tables and the list exist and are used, or replaced
            T.append(dict(fn="breaks", args=dict(lat=lat, k=k, sizes=sizes, concs=concs, arrows=arrows, before=[("enum", dict(enum=True))], calls=[("enum", dict(enum=True, super=True))],
                                                 points=3 if not big else 10, seed=rng.randrange(10 ** 6)), optional=i > 7, cpu=600))
    return T


main("C30", dict(breaks=breaks), tasks,
     "a case is one run that is broken off at one call; every one is non-trivial; distinct by crystal, request and moment")
