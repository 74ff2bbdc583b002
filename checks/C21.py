"""Every operation gives the same result whatever ran before, and keeps its arguments."""
import contextlib, copy, hashlib, json, os, random
import numpy as np
from vlib.harness import main, resolve, Unavailable
from vlib.geom import all_hnfs, n_states
from vlib import lattices
from vlib.crystal import sample_requests
from vlib.run import scratch, enum, makestr, write_lattice


def plain(x):
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float):
        return repr(x)
    if hasattr(x, "__dict__"):
        return plain(vars(x))
    return x if isinstance(x, (int, str, bool)) or x is None else repr(x)


def full(h):
    return [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]


def group_of(A, B, h, arrows):
    g = resolve("phenum.grouptheory:get_sym_group")(np.array(A), copy.deepcopy(B), np.array(full(h)), 3, arrows=arrows)
    return [[list(map(int, a)), list(map(int, b))] for a, b in zip(g.perm.site_perm, g.perm.arrow_perm)]


# -- operations: name -> (function, argument builder). The builder returns fresh arguments -----------
def op_call(path, args, kw=None, seed=None, post=None):
    f = resolve(path)
    kw = kw or {}
    before = plain([args, kw])
    if seed is not None:
        random.seed(seed)
    r = f(*args, **kw)
    after = plain([args, kw])
    return plain(r), before, after


def stage(files, calls, here=False):
    """a history of program runs in a folder of its own; the result is every file written"""
    with contextlib.nullcontext() if here else scratch():
        for name, text in files.items():
            with open(name, "w") as f:
                f.write(text)
            os.utime(name, (1.7e9, 1.7e9))
        for kind, kw in calls:
            (enum if kind == "enum" else makestr)(**copy.deepcopy(kw))
        out = {}
        for n in sorted(os.listdir(".")):
            with open(n) as f:
                t = f.read()
            if n.startswith("enum.out"):
                t = t[t.index("\n"):]
            if n.startswith("vasp") or n.endswith(".cfg"):
                import re
                t = re.sub(r"Random structure enumeration:.*", "", t)
            out[n] = hashlib.sha1(t.encode()).hexdigest() + " %d" % len(t)
    return out, None, None


def perform(op):
    kind, a = op["kind"], op["args"]
    A, B = a.get("A"), a.get("B")
    if kind == "hnfs":
        return op_call("phenum.HNFs:get_HNFs", [a["n"], np.array(A), copy.deepcopy(B), 3])
    if kind == "allhnfs":
        return op_call("phenum.HNFs:find_all_HNFs", [a["n"]])
    if kind == "pg":
        return op_call("phenum.symmetry:get_lattice_pointGroup", [copy.deepcopy(A)])
    if kind == "sg":
        d = (np.array(B) @ np.linalg.inv(np.array(A))).tolist() if a["latt"] else copy.deepcopy(B)
        return op_call("phenum.symmetry:get_spaceGroup", [copy.deepcopy(A), list(a["types"]), d], dict(lattcoords=a["latt"]))
    if kind == "concs":
        return op_call("phenum.symmetry:get_concs_for_size", [a["n"], a["k"], bool(a["concs"]), a["nB"], copy.deepcopy(a["concs"])])
    if kind == "cell":
        M = np.array(A)
        return op_call("phenum.symmetry:bring_into_cell", [list(a["v"]), np.linalg.inv(M.T), M.T.copy(), 1e-10])
    if kind == "group":
        return op_call("phenum.grouptheory:get_sym_group", [np.array(A), copy.deepcopy(B), np.array(full(a["h"])), 3], dict(arrows=a["arrows"]))
    if kind == "smith":
        return op_call("phenum.grouptheory:SmithNormalForm", [full(a["h"])])
    if kind == "polya":
        g = group_of(A, B, a["h"], bool(a["ar"]))
        if a.get("one"):
            # the group may also count from one
            g = [[[x + 1 for x in p] for p in op] for op in g]
        return op_call("phenum.polyaburnside:polya", [list(a["c"]), g] + ([a["ar"]] if a["ar"] else []))
    if kind == "enum_sys":
        p = dict(lat_vecs=copy.deepcopy(A), basis_vecs=copy.deepcopy(B))
        return op_call("phenum.phonons:enum_sys", [None, list(a["c"]), list(a["ac"]), a["want"], list(a["h"]), p, a["sup"], a["accept"]], seed=a["seed"])
    if kind == "mink":
        return op_call("phenum.vector_utils:_minkowski_reduce_basis", [copy.deepcopy(a["M"]), 1e-7])
    if kind == "lp":
        return op_call("phenum.element_data:get_lattice_parameter", [list(a["names"]), list(a["c"]), copy.deepcopy(A), len(B), "t"])
    if kind == "pclosure":
        return op_call("phenum.polyaburnside:group", [copy.deepcopy(a["gens"])])
    if kind in ("a_group", "a_group_gen"):
        return op_call("phenum.grouptheory:" + kind, [copy.deepcopy(a["trans"]), copy.deepcopy(a["rots"])])
    if kind == "tree":
        g = group_of(A, B, a["h"], a["arrows"])
        return op_call("phenum.tree:brancher", [list(a["c"]), g, copy.deepcopy(a["col"]), 6, a["sup"], a["h"][0] * a["h"][2] * a["h"][5]], seed=1)
    if kind == "guess":
        g = group_of(A, B, a["h"], a["arrows"])
        return op_call("phenum.tree:guess_and_check_brancher", [list(a["c"]), g, copy.deepcopy(a["col"]), 6, True, a["h"][0] * a["h"][2] * a["h"][5], 3], seed=a["seed"])
    if kind == "directions":
        g = group_of(A, B, a["h"], True)
        return op_call("phenum.phonons:add_arrows", [copy.deepcopy(a["col"]), g, 6, g[:a["h"][0] * a["h"][2] * a["h"][5]]], dict(supers=a["sup"], num_wanted=40))
    if kind == "decorate":
        return op_call("phenum.phonons:arrow_concs", [list(a["c"]), list(a["ac"])])
    if kind == "number":
        return op_call("phenum.tree:_invhash", [list(a["b"]), list(a["c"]), sum(a["c"])])
    if kind == "direct":
        return op_call("phenum.vector_utils:cartesian2direct", [copy.deepcopy(A), copy.deepcopy(a["P"]), 1e-7])
    if kind == "place":
        return op_call("phenum.vector_utils:map_enumStr_to_real_space", [copy.deepcopy(a["system"]), copy.deepcopy(a["record"]), a["mink"]])
    if kind == "label":
        return op_call("phenum.io_utils:create_labeling", [copy.deepcopy(a["col"])])
    if kind == "closure":
        return op_call("phenum.grouptheory:_group", [copy.deepcopy(a["gens"])])
    if kind == "stages":
        return stage(a["files"], a["calls"])
    raise ValueError(kind)


def fresh(op):
    """the same operation in a process that has done nothing else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                x = dict(result=perform(op)[0])
            except Unavailable as e:
                x = dict(missing=str(e))
            except SystemExit:
                x = dict(error="exit")
            except Exception as e:
                x = dict(error="%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(w, "w") as f:
                json.dump(x, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else dict(error="died")


def history(m, ops, seed, repeats):
    rng = random.Random(seed)
    base = [fresh(op) for op in ops]
    m.event("fresh-processes", len(ops))
    order = [i for i in range(len(ops)) for _ in range(repeats)]
    rng.shuffle(order)
    done = []
    for i in order:
        op = ops[i]
        if "missing" in base[i]:
            m.event("unobservable")
            continue
        try:
            r, before, after = perform(op)
            x = dict(result=json.loads(json.dumps(r)))
        except SystemExit:
            x, before, after = dict(error="exit"), None, None
        except Exception as e:
            x, before, after = dict(error="%s: %s" % (type(e).__name__, str(e)[:200])), None, None
        m.event("operations")
        m.event("op-" + op["kind"])
        m.case((op["kind"], repr(sorted(op["args"].items(), key=str)), tuple(done[-3:])), nontrivial=bool(done))
        if "error" in base[i]:
            m.violate("failed", "%s fails in a fresh process: %s" % (op["kind"], base[i]["error"]), op=op)
            continue
        m.check(x == base[i], "history", "%s gives another result after %s" % (op["kind"], [ops[j]["kind"] for j in done[-6:]]),
                op=op, fresh=str(base[i])[:500], now=str(x)[:500], after=[ops[j] for j in done[-2:]])
        if before is not None:
            m.check(before == after, "arguments", "%s changed its arguments" % op["kind"], op=op, before=str(before)[:300], after=str(after)[:300])
        done.append(i)
    m.sample(dict(operations=[o["kind"] for o in ops], order=order[:20]))


def rewritten(m, cases, seed):
    """the same file names with other contents, of the same length and time: every run uses what the files hold now"""
    rng = random.Random(seed)
    n = max(len(t) for files, _ in cases for t in files.values())
    cases = [({x: t + "\n" + " " * (n - len(t)) + "\n" for x, t in files.items()}, calls) for files, calls in cases]
    base = [fresh(dict(kind="stages", args=dict(files=f, calls=c))) for f, c in cases]
    order = [i for i in range(len(cases)) for _ in range(2)]
    rng.shuffle(order)
    with scratch():
        done = []
        for i in order:
            files, calls = cases[i]
            for x in os.listdir("."):
                os.remove(x)
            try:
                x = dict(result=stage(files, calls, here=True)[0])
            except SystemExit:
                x = dict(error="exit")
            except Exception as e:
                x = dict(error="%s: %s" % (type(e).__name__, str(e)[:200]))
            m.event("folders-reused")
            m.case(("rewritten", repr(cases[i])[:400], tuple(done[-2:])), nontrivial=bool(done))
            if "error" in base[i]:
                m.violate("failed", "the stages fail in a fresh process: %s" % base[i]["error"], case=cases[i])
                continue
            m.check(x == base[i], "rewritten", "%s in a folder whose files held another crystal before gives another result" % calls, files=files, fresh=str(base[i])[:500], now=str(x)[:500])
            done.append(i)


def lattice_text(A, B, sizes, k, concs, arrows):
    with scratch():
        write_lattice("l", A, B, sizes, k, concs, arrows)
        return open("l").read()


def record(h, lab):
    S, L, R = resolve("phenum.grouptheory:SmithNormalForm")(full(h))
    return dict(strN=1, hnfN=1, hnf_degen=1, lab_degen=1, tot_degen=1, sizeN=1, n=h[0] * h[2] * h[5], pgOps=1, diag=[int(S[i][i]) for i in range(3)], HNF=full(h),
                L=[[int(x) for x in r] for r in L], labeling="".join(map(str, lab)), directions="0" * len(lab))


def tasks(tier, rng):
    T = []
    big = tier == "thorough"

    pool = []

    def crystal():
        # few crystals per history, so that anything remembered under too little information is noticed
        if len(pool) < 2:
            pool.append(draw())
        return rng.choice(pool) if rng.random() < .8 else draw()

    def draw():
        return lattices.get(rng.choice(list(lattices.LIB))) if rng.random() < .6 else lattices.random_parent(rng)

    def make():
        from vlib.geom import Parent
        A, B = crystal()
        A, B = np.array(A).tolist(), np.array(B).tolist()
        nD = len(B)
        kind = rng.choice(["pclosure", "a_group", "a_group_gen", "tree", "guess", "directions", "decorate", "number", "direct", "place", "label"]
                          if rng.random() < .35 else
                          ["hnfs", "allhnfs", "pg", "sg", "concs", "cell", "group", "group", "smith", "polya", "enum_sys", "enum_sys", "mink", "lp", "closure",
                           "stages", "stages", "stages"])
        n = rng.randint(1, max(1, 6 // nD))
        h = rng.choice(all_hnfs(n))
        ax = Parent(A, B).axes_permuting()
        a = dict(A=A, B=B)
        if kind == "hnfs":
            a["n"] = rng.randint(1, 5)
        elif kind == "allhnfs":
            a = dict(n=rng.randint(1, 12))
        elif kind == "sg":
            a.update(types=[rng.randint(1, 2) for _ in B], latt=rng.random() < .5)
        elif kind == "concs":
            k = rng.choice([2, 3])
            a = dict(n=rng.randint(1, 6), k=k, nB=rng.randint(1, 2), concs=[[0, rng.randint(1, 4), 4] for _ in range(k)] if rng.random() < .5 else [])
        elif kind == "cell":
            a["v"] = (np.array([rng.choice([-1.25, .5, 1.75, .3]) for _ in range(3)]) @ np.array(A)).tolist()
        elif kind == "group":
            a.update(h=h, arrows=ax and rng.random() < .6)
        elif kind == "smith":
            a = dict(h=rng.choice(all_hnfs(rng.choice([8, 12, 16]))))
        elif kind in ("polya", "enum_sys"):
            N = n * nD
            k = rng.choice([2, 3])
            c = [0] * k
            while sum(c) < N:
                c[rng.randrange(k)] += 1
            if kind == "polya":
                a.update(h=h, c=c, ar=rng.choice([0, 0, 1]) if ax else 0, one=rng.random() < .4)
            else:
                ar = [rng.choice([0, 0, .5, 1.]) for _ in range(k)] if ax and N <= 4 else [0] * k
                a.update(h=h, c=c, ac=ar, want=rng.choice([1, 2, 5, 10 ** 5]), sup=rng.random() < .5, accept=rng.choice([None, None, .5]), seed=rng.randrange(1000))
        elif kind == "pclosure":
            o = rng.randint(0, 1)
            a = dict(gens=[[x + o for x in rng.sample(range(4), 4)] for _ in range(rng.randint(1, 3))])
        elif kind in ("a_group", "a_group_gen"):
            S = rng.choice([3, 4])
            a = dict(trans=[[(i + j) % S for i in range(S)] for j in range(S)], rots=[[rng.sample(range(S), S), rng.sample(range(3), 3)] for _ in range(2)])
        elif kind in ("tree", "guess", "directions"):
            n = min(n, max(1, 4 // nD))
            h = rng.choice(all_hnfs(n))
            N = n * nD
            k = rng.choice([2, 3]) if N > 2 else 2
            c = [1] * k if N >= k else [N]
            while sum(c) < N:
                c[rng.randrange(len(c))] += 1
            c.sort()
            arrows = kind == "directions" or (ax and rng.random() < .4)
            if kind == "directions" and not ax:
                arrows, kind = False, "tree"
            # displaced species come last
            col = [[0 if arrows and i == len(c) - 1 and c[-1] <= 3 else -1, i + 1] for i, x in enumerate(c) for _ in range(x)]
            a.update(h=h, c=c, col=col, arrows=arrows, sup=rng.random() < .5, seed=rng.randrange(1000))
        elif kind == "decorate":
            c = [rng.randint(0, 4) for _ in range(3)]
            a = dict(c=c, ac=[rng.choice([0, .25, .5, 1.]) for _ in c])
        elif kind == "number":
            from math import comb
            c = [rng.randint(1, 4) for _ in range(rng.randint(2, 4))]
            a = dict(c=c, b=[rng.randrange(comb(sum(c[i:]), x)) for i, x in enumerate(c)])
        elif kind == "direct":
            a["P"] = [(np.array([rng.choice([-1.25, .5, 1.75, .3, 0, 2]) for _ in range(3)]) @ np.array(A)).tolist() for _ in range(3)]
        elif kind == "label":
            a = dict(col=[[rng.randint(-1, 5), rng.randint(1, 4)] for _ in range(5)])
        elif kind == "place":
            a["system"] = dict(plattice=np.array(A).T.tolist(), dvecs=B, title="t", bulksurf="bulk", nD=nD, k=2, eps=1e-7)
            a["mink"] = rng.random() < .5
            a["record"] = record(h, [rng.randint(0, 1) for _ in range(n * nD)])
        elif kind == "mink":
            a = dict(M=(np.array(lattices.unimodular(rng, 3)) @ np.array(A)).tolist())
        elif kind == "lp":
            k = rng.choice([1, 2, 3])
            a.update(names=rng.sample(["Al", "Ni", "Cu", "W", "Pb"], k), c=[rng.randint(1, 4) for _ in range(k)])
        elif kind == "closure":
            g = []
            for _ in range(2):
                x, y = list(range(4)), list(range(3))
                rng.shuffle(x)
                rng.shuffle(y)
                g.append([x, y])
            a = dict(gens=g)
        elif kind == "stages":
            top = {1: 4, 2: 2}.get(nD, 1)
            concs = [[0, rng.randint(2, 4), 4]] * 2 if rng.random() < .5 else None
            arrows = [0., rng.choice([.5, 1.])] if concs and ax and nD == 1 and rng.random() < .5 else None
            if arrows:
                top = min(top, 2)
            files = {"lattice.in": lattice_text(A, B, [1, top], 2, concs, arrows)}
            s = rng.randrange(1000)
            calls = rng.choice([
                [["enum", dict(polya=True)]],
                [["enum", dict(enum=True, seed=s, super=rng.random() < .5)], ["makestr", dict(structures=["all"], input="enum.out", species=rng.choice([None, ["Al", "Cu"]]), displace=.1)]],
                [["enum", dict(polya=True)], ["enum", dict(distribution=[rng.choice(["all", "size", "shape", "conc"]), str(rng.randint(1, 9))], savedist=True, seed=s)]],
                # superperiodic structures are kept so that the list isn't empty
                [["enum", dict(enum=True, seed=s, super=True, distribution=["all", str(rng.randint(1, 9))])], ["makestr", dict(structures=["all"] if concs else ["1", "3"], input="enum.out", config="t", outfile="a.cfg")]],
                [["enum", dict(enum=True, seed=s, acceptrate=.5)]]])
            a = dict(files=files, calls=calls)
        return dict(kind=kind, args=a)
    for i in range(24 if not big else 240):
        del pool[:]
        T.append(dict(fn="history", args=dict(ops=[make() for _ in range(14)], seed=rng.randrange(10 ** 6), repeats=3), optional=i > 8))
    for i in range(8 if not big else 80):
        cases = []
        for _ in range(3):
            A, B = lattices.get(rng.choice(list(lattices.LIB))) if rng.random() < .6 else lattices.random_parent(rng)
            top = {1: 4, 2: 2}.get(len(B), 1)
            concs = [[0, rng.randint(2, 4), 4]] * 2 if rng.random() < .4 else None
            cases.append(({"lattice.in": lattice_text(A, B, [1, top], 2, concs, None)},
                          rng.choice([[["enum", dict(polya=True)]], [["enum", dict(enum=True, super=True)], ["makestr", dict(structures=["all"], input="enum.out")]],
                                      [["enum", dict(enum=True, super=True)], ["makestr", dict(structures=["all"], input="enum.out", config="t", outfile="a.cfg")]]])))
        T.append(dict(fn="rewritten", args=dict(cases=cases, seed=rng.randrange(10 ** 6)), optional=i > 3))
    return T


main("C21", dict(history=history, rewritten=rewritten), tasks,
     "a case is one operation inside a history; non-trivial when something ran before it; distinct by operation and the three operations before it")
