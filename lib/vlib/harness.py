"""Runs the monitored executions of one property and turns what the monitors saw into a
verdict.

A check is a list of tasks.  Every task is executed in its own forked process (fresh
interpreter state, scratch working directory, CPU and memory limits) and reports what its
monitors observed: events, distinct non-trivial cases, samples and violations.

exit 0  the property held on everything observed (listed known findings are printed)
exit 1  a violation that is not listed; one line "VIOLATION property=<id> replay=<path>"
exit 2  inconclusive: the machinery failed, or the monitors saw nothing
"""
import json, multiprocessing as mp, os, random, resource, signal, sys, time, traceback, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("PHENUM_REPO", "/repo")
LEVEL = "exploration"


class Unavailable(Exception):
    """an entry point the monitor wanted does not exist in this tree (not a violation)"""


class Hang(BaseException):
    """the CPU allowance of a task ran out"""


class OracleError(Exception):
    """the reference model contradicts itself: inconclusive"""


def resolve(path):
    """resolve 'phenum.module:name' or raise Unavailable"""
    import importlib
    mod, name = path.split(":")
    try:
        return getattr(importlib.import_module(mod), name)
    except (ImportError, AttributeError) as e:
        raise Unavailable("%s: %s" % (path, e))


class Monitor(object):
    """what one task observed"""

    def __init__(self, task):
        self.task = task
        self.events = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self.notes = []

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def case(self, key, nontrivial=True):
        """one evaluated case; key identifies it for the distinct count"""
        self.event("case")
        if nontrivial:
            self.keys.add(repr(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violate(self, key, what, **detail):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, what=what, detail=detail))

    def check(self, cond, key, what, **detail):
        if not cond:
            self.violate(key, what, **detail)
        return bool(cond)

    def note(self, s):
        if len(self.notes) < 5:
            self.notes.append(s)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _child(conn, funcs, task, cpu):
    status = "ok"
    m = Monitor(task)
    tb = ""
    d = tempfile.mkdtemp(prefix="vph_")
    try:
        os.chdir(d)
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

        def onxcpu(sig, frame):
            raise Hang()
        signal.signal(signal.SIGXCPU, onxcpu)
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 20))
        random.seed(task.get("seed", 0))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        try:
            funcs[task["fn"]](m, **task["args"])
        except Unavailable as e:
            status = "unavailable"
            tb = str(e)
        except OracleError as e:
            status = "harness"
            tb = traceback.format_exc()
        except MemoryError:
            status = "harness"
            tb = "memory"
        except Hang:
            m.violate("no-result", "no result within %d s of CPU time (normally a small fraction of that)" % cpu)
        except KeyboardInterrupt:
            status = "harness"
        except BaseException as e:
            # The workload is valid input for the program and deterministic; on the tree
            # where the property holds it runs to the end.
            m.violate("abnormal-end", "valid input did not run to a normal end: %s: %s" % (type(e).__name__, str(e)[:300]),
                      trace=traceback.format_exc()[-1500:])
    except BaseException:
        status = "harness"
        tb = traceback.format_exc()
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    try:
        conn.send(json.dumps(jsonable(dict(status=status, tb=tb, events=m.events, keys=sorted(m.keys), samples=m.samples,
                       violations=m.violations, notes=m.notes))))
        conn.close()
    except BaseException:
        os._exit(3)
    os._exit(0)


def run_tasks(funcs, tasks, cpu, jobs, deadline):
    """runs tasks, yields (task, result). Optional tasks are not started after the deadline."""
    pending = list(tasks)
    running = []
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            if t.get("optional") and time.time() > deadline:
                yield t, dict(status="skipped")
                continue
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, funcs, t, t.get("cpu", cpu)))
            p.start()
            b.close()
            t["_t0"] = time.time()
            running.append((t, p, a))
        if not running:
            continue
        ready = mp.connection.wait([a for _, _, a in running], timeout=5)
        rest = []
        for t, p, a in running:
            if a in ready:
                try:
                    r = json.loads(a.recv())
                except EOFError:
                    p.join()
                    code = p.exitcode
                    if code in (-signal.SIGXCPU, -signal.SIGKILL) and code == -signal.SIGXCPU:
                        r = dict(status="ok", events={}, keys=[], samples=[], notes=[],
                                 violations=[dict(key="no-result", what="no result: CPU allowance used up", detail={})])
                    else:
                        r = dict(status="harness", tb="task process ended with %s" % code)
                p.join()
                if os.environ.get("VERIF_TIMING"):
                    print("TIME %.1f %s" % (time.time() - t["_t0"], json.dumps(t)[:160]))
                t.pop("_t0", None)
                yield t, r
            else:
                rest.append((t, p, a))
        running = rest


def known(pid):
    """{key: text} of the listed findings of this property"""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("finding: property=%s " % pid):
                    rest = l.split(" ", 2)[2]
                    k, text = rest.split(" ", 1)
                    assert k.startswith("key=")
                    out[k[4:]] = text.strip()
    except IOError:
        pass
    return out


def main(pid, funcs, make_tasks, rule, cpu=180, budget=(45, 780), min_cases=1, finish=None):
    """make_tasks(tier, rng) -> list of dict(fn, args[, optional, cpu])"""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--list", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, REPO)
    try:
        import phenum
        where = os.path.realpath(phenum.__file__)
        assert where.startswith(os.path.realpath(REPO) + os.sep), where
        # import the package once; children are forked from here
        import importlib
        for mname in ("HNFs", "enumeration", "grouptheory", "io_utils", "numerics", "phenumStr", "phonons",
                      "polyaburnside", "structures", "symmetry", "tree", "vector_utils", "element_data"):
            importlib.import_module("phenum." + mname)
    except AssertionError as e:
        print("INCONCLUSIVE: phenum comes from %s" % e)
        sys.exit(2)
    except Exception as e:
        print("the package cannot be imported: %r" % e)
        viol = [dict(key="abnormal-end", what="the package cannot be imported: %r" % e, detail={})]
        _finish(pid, tier, seed, t0, {}, set(), [], [(dict(fn="import", args={}), v) for v in viol], rule, {}, 0, 0)
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    if o.replay:
        with open(o.replay) as f:
            rp = json.load(f)
        tasks = [rp["task"]]
    else:
        tasks = make_tasks(tier, rng)
    for i, t in enumerate(tasks):
        t.setdefault("seed", seed * 1000003 + i)
    tasks = [json.loads(json.dumps(jsonable(t))) for t in tasks]
    if o.list:
        for t in tasks:
            print(json.dumps(t)[:200])
        return
    jobs = 1 if o.serial else min(8, os.cpu_count() or 1)
    deadline = t0 + budget[0 if tier == "quick" else 1]
    events, keys, samples, viols, harness, unavailable, skipped, notes = {}, set(), [], [], [], [], 0, []
    ran = 0
    for t, r in run_tasks(funcs, tasks, cpu, jobs, deadline):
        if r["status"] == "skipped":
            skipped += 1
            continue
        ran += 1
        if r["status"] == "harness":
            harness.append((t, r.get("tb", "")))
            continue
        if r["status"] == "unavailable":
            unavailable.append((t, r.get("tb", "")))
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        keys.update(r["keys"])
        if len(samples) < 8:
            samples += [dict(task=t["fn"], observed=s) for s in r["samples"][:2]]
        viols += [(t, v) for v in r["violations"]]
        notes += r["notes"]
    for t, tb in unavailable[:3]:
        print("NOTE: not observable here: %s" % tb)
    for n in sorted(set(notes))[:5]:
        print("NOTE: %s" % n)
    for t, tb in harness[:3]:
        print("HARNESS: task %s failed: %s" % (json.dumps(t)[:300], tb[-1500:]))
    _finish(pid, tier, seed, t0, events, keys, samples, viols, rule, dict(tasks=ran, tasks_skipped=skipped,
            tasks_unavailable=len(unavailable)), len(harness), min_cases)


def _finish(pid, tier, seed, t0, events, keys, samples, viols, rule, extra, nharness, min_cases):
    kn = known(pid)
    fresh, listed = [], {}
    for t, v in viols:
        if v["key"] in kn:
            listed.setdefault(v["key"], []).append((t, v))
        else:
            fresh.append((t, v))
    cov = dict(evaluations=events.get("case", 0), distinct_nontrivial=len(keys), rule=rule,
               samples=samples[:6] or ["none"], events={k: v for k, v in sorted(events.items()) if k != "case"})
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(fresh), known_findings_seen=sorted(listed))
    if os.environ.get("VERIF_NO_EVIDENCE") != "1":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, events %s, %.1f s" % (
        pid, tier, seed, events.get("case", 0), len(keys), json.dumps(cov["events"]), time.time() - t0))
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (t, v) in enumerate(fresh[:5]):
            path = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(dict(property=pid, task=t, violation=v), f, indent=1)
            print("  %s: %s" % (v["key"], v["what"]))
            print("  detail: %s" % json.dumps(v["detail"])[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        sys.exit(1)
    if nharness:
        print("INCONCLUSIVE: %d tasks failed in the harness" % nharness)
        sys.exit(2)
    if events.get("case", 0) < min_cases or not keys:
        print("INCONCLUSIVE: the monitors observed nothing to judge")
        sys.exit(2)
    sys.exit(0)
