"""Parent lattices used as workloads: a fixed library and a random generator."""
from math import sqrt
import numpy as np
s3 = sqrt(3)

LIB = {
    'sc': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]]),
    'fcc': ([[.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [[0, 0, 0]]),
    'fcc2': ([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0]]),
    'fcc4': ([[2.025, 2.025, 0], [2.025, 0, 2.025], [0, 2.025, 2.025]], [[0, 0, 0]]),
    'bcc': ([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]], [[0, 0, 0]]),
    'tet': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0, 0, 0]]),
    'orth': ([[1, 0, 0], [0, 1.2, 0], [0, 0, 1.5]], [[0, 0, 0]]),
    'bct': ([[-.5, .5, .7], [.5, -.5, .7], [.5, .5, -.7]], [[0, 0, 0]]),
    'fco': ([[.5, .6, 0], [.5, 0, .7], [0, .6, .7]], [[0, 0, 0]]),
    'hex': ([[1, 0, 0], [-.5, s3 / 2, 0], [0, 0, 1.6]], [[0, 0, 0]]),
    'hex2': ([[1, 0, 0], [.5, s3 / 2, 0], [0, 0, 1.6]], [[0, 0, 0]]),
    'mono': ([[1, 0, 0], [0.3, 1.1, 0], [0, 0, 1.4]], [[0, 0, 0]]),
    'tri': ([[1, 0.1, 0.2], [0.3, 1.1, 0], [0.15, -.25, 1.4]], [[0, 0, 0]]),
    'rhom': ([[1, .2, .2], [.2, 1, .2], [.2, .2, 1]], [[0, 0, 0]]),
    'hcp': ([[1, 0, 0], [.5, s3 / 2, 0], [0, 0, 1.633]], [[0, 0, 0], [.5, s3 / 6, 1.633 / 2]]),
    'hcps': ([[1, 0, 0], [.5, s3 / 2, 0], [0, 0, 1.633]], [[0.1, 0.05, 0.3], [.6, s3 / 6 + .05, 1.633 / 2 + .3]]),
    'dia': ([[.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [[0, 0, 0], [.25, .25, .25]]),
    'dias': ([[.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [[0.125, 0.125, .125], [.375, .375, .375]]),
    'sc2': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [.5, .5, .5]]),
    'tet2': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0, 0, 0], [.5, .5, .65]]),
    'scO': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    'perov': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    'gen2': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.1, .2, .3], [.4, .45, .85]]),
    'gen3': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.1, .2, .3], [.4, .45, .85], [.7, .15, .55]]),
    'tet3': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0, 0, 0], [.5, 0, .4], [0, .5, .4]]),
    # a basis with sites outside of the cell
    'ch3': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0.3, 0.1, 0.2], [-.3, -.1, .2], [-.1, .3, .2]]),
    'out2': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [1.5, -.5, 2.5]]),
    'C4': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0.3, 0.1, 0.2], [-.3, -.1, .2], [-.1, .3, .2], [.1, -.3, .2]]),
    'S41': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0.3, 0.1, 0.], [-.1, .3, .325], [-.3, -.1, .65], [.1, -.3, .975]]),
    'honey': ([[1, 0, 0], [.5, s3 / 2, 0], [0, 0, 1.6]], [[.5, s3 / 6, 0], [1., s3 / 3, 0]]),
    'kag': ([[1, 0, 0], [.5, s3 / 2, 0], [0, 0, 1.6]], [[.5, 0, 0], [.25, s3 / 4, 0], [.75, s3 / 4, 0]]),
    # nearly, but not exactly, of higher symmetry
    'near': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.0006]], [[0, 0, 0]]),
    'ndia': ([[.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [[0, 0, 0], [.25, .25, .2506]]),
    'alpha': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.3]], [[0.2, 0, 0], [.8, 0, 0], [0, .2, 0], [0, .8, 0]]),
}


def get(spec):
    """a library name, or [A, basis]"""
    if isinstance(spec, str):
        return LIB[spec]
    return spec


def _params(rng):
    while True:
        p = [round(rng.uniform(0.8, 1.9), 2) for _ in range(3)]
        if min(abs(p[0] - p[1]), abs(p[1] - p[2]), abs(p[0] - p[2])) > 0.08:
            return p


KINDS = ["sc", "fcc", "bcc", "tet", "bct", "orth", "fco", "bco", "cco", "hex", "rhom", "mono", "cmono", "tri"]
AXES = KINDS[:9] + ["mono", "tri"]      # point groups that permute the cartesian axes


def short_vectors(A):
    """how many lattice vectors are not longer than the longest given one"""
    A = np.array(A)
    r = max(np.linalg.norm(v) for v in A) + 1e-9
    g = np.array(np.meshgrid(*[np.arange(-6, 7)] * 3)).reshape(3, -1).T @ A
    return int((np.linalg.norm(g, axis=1) <= r).sum())


def random_lattice(rng, kinds=None, skew=True, crowd=31):
    """crowd bounds the number of lattice vectors within the longest lattice vector: the
    program's point group search is cubic in it"""
    while True:
        kind, A = _random_lattice(rng, kinds, skew)
        if short_vectors(A) <= crowd:
            return kind, A


def _random_lattice(rng, kinds=None, skew=True):
    kind = rng.choice(kinds or KINDS)
    a, b, c = _params(rng)
    if kind == "sc":
        A = np.eye(3) * a
    elif kind == "fcc":
        A = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) * a / 2
    elif kind == "bcc":
        A = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) * a / 2
    elif kind == "tet":
        A = np.diag([a, a, b])
    elif kind == "bct":
        A = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) * np.array([a, a, b]) / 2
    elif kind == "orth":
        A = np.diag([a, b, c])
    elif kind == "fco":
        A = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) * np.array([a, b, c]) / 2
    elif kind == "bco":
        A = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) * np.array([a, b, c]) / 2
    elif kind == "cco":
        A = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]]) * np.array([a, b, c])
    elif kind == "hex":
        A = np.array([[1, 0, 0], [rng.choice([.5, -.5]), s3 / 2, 0], [0, 0, b / a]]) * a
    elif kind == "rhom":
        x = rng.choice([.15, .2, .3, -.2])
        A = np.array([[1, x, x], [x, 1, x], [x, x, 1]]) * a
    elif kind == "mono":
        A = np.array([[a, 0, 0], [.27 * b, b, 0], [0, 0, c]])
    elif kind == "cmono":
        A = np.array([[a, 0, 0], [.27 * b, b, 0], [.5 * a, 0, c / 2]])
    else:
        A = np.array([[a, .08, .17], [.23, b, .05], [.11, -.19, c]])
    if skew and rng.random() < .6:
        A = unimodular(rng) @ A
    if np.linalg.det(A) < 0 and rng.random() < .5:
        A = A[[1, 0, 2]]
    return kind, A.tolist()


def unimodular(rng, steps=2):
    while True:
        M = np.eye(3, dtype=int)
        for _ in range(rng.randint(1, steps)):
            i, j = rng.sample(range(3), 2)
            M[i] += rng.choice([-1, 1]) * M[j]
        if rng.random() < .4:
            M = M[rng.sample(range(3), 3)]
        if np.abs(M).max() <= 2:
            return M


SPECIAL = [0, .5, .25, .75, 1 / 3., 2 / 3., .125, .2]


def random_basis(rng, A, nD, special=None):
    A = np.array(A)
    for _ in range(500):
        special_ = rng.random() < .7 if special is None else special
        d = []
        if rng.random() < .6:
            d.append([0., 0., 0.])
        while len(d) < nD:
            if special_:
                d.append([rng.choice(SPECIAL[:rng.choice([2, 4, 8])]) for _ in range(3)])
            else:
                d.append([round(rng.uniform(0, .95), 2) for _ in range(3)])
        d = np.array(d[:nD])
        ok = True
        for i in range(nD):
            for j in range(i):
                df = d[i] - d[j]
                for s in np.ndindex(3, 3, 3):
                    v = (df - np.round(df) + np.array(s) - 1) @ A
                    if np.linalg.norm(v) < .12 * abs(np.linalg.det(A)) ** (1 / 3.):
                        ok = False
        if ok:
            rng.shuffle(d.tolist())
            return (d @ A).tolist()
    raise RuntimeError("no basis found")


def random_parent(rng, nD=None, kinds=None, skew=True):
    kind, A = random_lattice(rng, kinds, skew)
    nD = nD or rng.choice([1, 1, 1, 2, 2, 3])
    B = random_basis(rng, A, nD) if nD > 1 or rng.random() < .2 else [[0., 0., 0.]]
    return [A, B]


def nearly(rng, parent):
    """a crystal that differs from the given one by a small strain or a small shift of one site,
    so that some of its operations are only approximately symmetries"""
    A, B = np.array(parent[0], float), np.array(parent[1], float)
    d = rng.choice([4e-4, 7e-4, 2e-3])
    frac = B @ np.linalg.inv(A)
    how = rng.choice(["axes", "shear", "site"]) if len(B) > 1 else rng.choice(["axes", "shear"])
    if how == "axes":
        e = np.diag([1, 1 + d * rng.choice([0, 1, -1]), 1 + d])
    elif how == "shear":
        e = np.eye(3)
        i, j = rng.sample(range(3), 2)
        e[i, j] = e[j, i] = d      # symmetric: an operation is kept exactly or broken at first order
    else:
        e = np.eye(3)
    A = A @ e
    B = frac @ A
    if how == "site":
        B[-1] += d * np.array(rng.choice([[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 2, 3]]))
    return [A.tolist(), B.tolist()]


def typed(parent, digits=8, turn=0, scale=1.0):
    """the same crystal as it is typed into a file, with a limited number of digits; the deviations from
    the exact crystal stay, also in the supercells, well below the tolerance (1e-7) that supercells and operations are found with"""
    T = [np.eye(3), np.array([[.36, .48, -.8], [-.8, .6, 0], [.48, .64, .6]]),
         np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]) / 3][turn] * scale
    return [np.round(np.array(v, float) @ T, digits).tolist() for v in parent]


THIRD = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1 / 3, 1 / 3, 1 / 3], [2 / 3, 2 / 3, 2 / 3]]]
TYPED = [typed(LIB["hex"], 7)] + [typed(LIB[n], d, t) for n, d, t in [("hex2", 9, 0), ("hcp", 9, 0), ("honey", 9, 1), ("rhom", 10, 2), ("fcc", 10, 2),
                                                                       ("bcc", 9, 1), ("tet", 10, 2), ("kag", 9, 0), ("hcp", 9, 2), ("mono", 10, 2)]] + [typed(THIRD, 9), typed(THIRD, 9, 2)]
# ... with sites that the rounding puts on either side of the cell's boundary
EDGE = [typed(LIB[n], 9, t) for n, t in [("kag", 2), ("kag", 1), ("tet3", 2), ("scO", 1)]]
