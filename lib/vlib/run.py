"""Drives the real phenum programs through their command boundary, in scratch folders."""
import os, sys, io, shutil, tempfile, contextlib, copy
import numpy as np

ENUM_DEFAULTS = dict(polya=False, enum=False, lattice="lattice.in", input=None, distribution=None,
                     savedist=False, outfile=None, sizes=None, acceptrate=None, profile=False,
                     seed=None, super=False, filter=None, visualize=False, shapes=False, show=False,
                     verbose=None, debug=False, examples=False)
STR_DEFAULTS = dict(structures=None, displace=0.0, input="struct_enum.out", mink="t", species=None,
                    species_mapping=None, outfile="vasp.{}", rattle=0.0, config="f",
                    remove_zeros="f", verbose=None, debug=False, examples=False)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vphenum_")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


class CodeExit(Exception):
    """the program under test called exit() or raised"""


def enum(**kw):
    from phenum.enumeration import _script_enum
    a = copy.deepcopy(ENUM_DEFAULTS)
    a.update(kw)
    with quiet() as o:
        try:
            _script_enum(a)
        except SystemExit as e:
            raise CodeExit("program exited: %r; output: %s" % (e.code, o.getvalue()[-300:]))
    return o.getvalue()


def makestr(**kw):
    from phenum.phenumStr import run
    a = copy.deepcopy(STR_DEFAULTS)
    a.update(kw)
    with quiet() as o:
        try:
            run(a)
        except SystemExit as e:
            raise CodeExit("program exited: %r; output: %s" % (e.code, o.getvalue()[-300:]))
    return o.getvalue()


def write_lattice(path, A, basis, sizes, k, concs=None, arrows=None, comments=True):
    """concs: list of (lo, hi, den); arrows: list of fractions or None"""
    L = []
    if comments:
        L.append("#Cell sizes")
    L.append("%d %d" % tuple(sizes))
    L.append("bulk")
    if comments:
        L.append("#lattice vectors")
    for v in A:
        L.append("  ".join(repr(float(x)) for x in v))
    L.append(str(k))
    L.append(str(len(basis)))
    for v in basis:
        L.append("  ".join(repr(float(x)) for x in v))
    if concs is None:
        L.append("F")
    else:
        L.append("T")
        L.append("T" if arrows is not None else "F")
        for i, c in enumerate(concs):
            row = "%d %d %d" % tuple(c)
            if arrows is not None:
                row += " " + repr(float(arrows[i]))
            L.append(row)
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


# -- file readers written from the documented formats, independent of phenum.io_utils ----
def read_polya(path):
    """returns (concs, rows {hnf: [counts]}, rowtotals {hnf: total}, coltotals, grand)"""
    with open(path) as f:
        lines = [l.rstrip("\n") for l in f]
    head = lines[0].split()
    concs = [tuple(int(x) for x in h.split(":")) for h in head[2:-1]]
    rows, tot = [], []
    for l in lines[1:]:
        if l.startswith("#"):
            continue
        v = [int(x) for x in l.split()]
        rows.append((tuple(v[:6]), v[6:-1], v[-1]))
    last = rows.pop()
    return concs, rows, last


def read_enum_in(path):
    out = []
    with open(path) as f:
        for l in f:
            if l.strip().startswith("#") or not l.strip():
                continue
            v = [int(x) for x in l.split()]
            out.append((tuple(v[:6]), tuple(v[6:-1]), v[-1]))
    return out


class Rec(object):
    __slots__ = ("num", "sizecount", "size", "snf", "hnf", "L", "lab", "dirs", "line")


def read_enum_out(path):
    """returns (header dict, [Rec])"""
    with open(path) as f:
        lines = f.read().split("\n")
    h = {"title": lines[0], "bulk": lines[1].strip()}
    h["A"] = [[float(x) for x in l.split()] for l in lines[2:5]]
    nD = int(lines[5])
    h["nD"] = nD
    h["basis"] = [[float(x) for x in l.split()] for l in lines[6:6 + nD]]
    h["k"] = int(lines[6 + nD].split("-")[0])
    h["sizes"] = [int(x) for x in lines[7 + nD].split()]
    recs = []
    for l in lines[14 + nD:]:
        if not l.strip():
            continue
        v = l.split()
        r = Rec()
        r.line = l
        r.num = int(v[0])
        r.sizecount = int(v[5])
        r.size = int(v[6])
        r.snf = [int(x) for x in v[8:11]]
        r.hnf = tuple(int(x) for x in v[11:17])
        r.L = np.array([int(x) for x in v[17:26]]).reshape(3, 3)
        r.lab = v[26]
        r.dirs = v[27] if len(v) > 27 else ""
        recs.append(r)
    return h, recs
