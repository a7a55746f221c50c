"""Bounded spaces of arrangements shared by the physics checks."""
import itertools
import math

import numpy as np

from mc import ref

# 26 lattice directions followed by generic ones
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
GENERIC = [(0.3, -0.5, 0.9), (-0.71, 0.13, 0.22), (0.05, 0.9, -0.4)]
HALF = [d for d in DIRS if d > (0, 0, 0)]

# scaled separations s' = 2 r/(a1+a2): contact, either side of the far-field
# clamp (2.001), inside / at / between table points, either side of the cutoff
SEPS = [2.0, 2.0004, 2.001, 2.0013, 2.007, 2.06, 2.21, 2.5, 3.07, 3.999,
        4.0, 4.001, 5.3, 11.0]

SIZES = [(1, 1), (1, 0.1), (0.1, 1), (1, 0.01), (0.1, 0.1), (2, 0.2), (0.3, 3)]

SHORT = (0.17, -0.2, 0.16)
LONG = (0.9, 0.7, -0.8)
KINDS = {"S": 1.0, "s": 0.1, "D": 0.1, "E": 0.1}

# sites: neighbours at contact-like, lubrication, mid and far distances for
# unit spheres; the extra sites are close enough for the small particles
SITES = [(0.0, 0.0, 0.0), (2.05, 0.1, 0.05), (0.2, 2.3, -0.1),
         (-0.4, 0.9, 3.1), (2.9, 2.4, 1.1),
         (0.75, -0.62, 0.66), (-6.0, 1.5, -2.0)]


def unit(d):
    d = np.asarray(d, float)
    return d / np.linalg.norm(d)


def build(items):
    """items: list of [kind, position] (kind S, s, D, E or a dict)."""
    sa, sx, da, dx, dd = [], [], [], [], []
    for k, x in items:
        if k in ("S", "s"):
            sa.append(KINDS[k])
            sx.append(x)
        else:
            da.append(KINDS[k])
            dx.append(x)
            dd.append(SHORT if k == "D" else LONG)
    return ref.System(sa, sx, da, dx, dd)


def clear(S, gap=1.0005):
    for i in range(S.nb):
        for j in range(i):
            if np.linalg.norm(S.bx[i] - S.bx[j]) <= gap * (S.ba[i] + S.ba[j]):
                return False
    return True


_cache = {}


def arrangements(kmax, kinds="SsDE", sites=None, kmin=1, need=None):
    """Every non-overlapping placement of kmin..kmax particles on the sites."""
    sites = SITES if sites is None else sites
    key = (kmax, kinds, tuple(sites), kmin)
    if key not in _cache:
        res = []
        for k in range(kmin, kmax + 1):
            for pos in itertools.combinations(range(len(sites)), k):
                for ks in itertools.product(kinds, repeat=k):
                    items = [[q, list(sites[p])] for q, p in zip(ks, pos)]
                    items.sort(key=lambda t: "SsDE".index(t[0]))
                    if clear(build(items)):
                        res.append(items)
        _cache[key] = res
    return _cache[key]


def crowd(n, m):
    """n spheres and m dumbbells close together, neighbours on a lattice being far
    apart in the numbering."""
    grid = [(2.37 * i, 2.41 * j, 2.45 * k) for k in range(3) for j in range(2) for i in range(3)]
    items = []
    for q in range(n + m):
        x = np.array(grid[(5 * q) % 18]) + 0.07 * np.array(
            [np.sin(1.7 * q), np.cos(2.3 * q), np.sin(3.1 * q + 1)])
        items.append(["Ss"[q % 2] if q < n else "DE"[q % 2], x.tolist()])
    items.sort(key=lambda t: "SsDE".index(t[0]) // 2)
    return items


def crowds(nmax=6, mmax=5, kmin=4):
    """A crowd of every size."""
    return [crowd(n, m) for n in range(nmax + 1) for m in range(mmax + 1) if n + m >= kmin]


def pair_grid(seps=None, dirs=None, sizes=None):
    """Every (radii, separation, direction) of the two-sphere grid."""
    seps = SEPS if seps is None else seps
    dirs = (DIRS + GENERIC) if dirs is None else dirs
    sizes = SIZES if sizes is None else sizes
    return [[list(a), s, list(d)] for a in sizes for s in seps for d in dirs]


def build_pair(c):
    (a1, a2), s, d = c
    x0 = np.array([0.4, -0.3, 0.2])
    return ref.System([a1, a2], [x0, x0 + unit(d) * s * (a1 + a2) / 2])


def rotation(axis, angle):
    a = unit(axis)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K


def octahedral():
    """The 48 signed permutation matrices."""
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            Q = np.zeros((3, 3))
            for i in range(3):
                Q[i, p[i]] = s[i]
            out.append(Q)
    return out


def rep5(Q):
    """Action of Q on 5-vectors of symmetric traceless tensors."""
    return np.einsum("aij,ik,jl,bkl->ab", ref.B5, Q, Q, ref.B5)


def grand_rep(Q, n, m):
    """Action of Q on grand force/velocity vectors."""
    det = round(np.linalg.det(Q))
    T = np.zeros((11 * n + 6 * m, 11 * n + 6 * m))
    for i in range(n):
        T[3 * i:3 * i + 3, 3 * i:3 * i + 3] = Q
        o = 3 * n + 3 * i
        T[o:o + 3, o:o + 3] = det * Q
        o = 6 * n + 5 * i
        T[o:o + 5, o:o + 5] = rep5(Q)
    for i in range(2 * m):
        o = 11 * n + 3 * i
        T[o:o + 3, o:o + 3] = Q
    return T


def transform(S, Q=None, t=None):
    Q = np.eye(3) if Q is None else Q
    t = np.zeros(3) if t is None else np.asarray(t, float)
    return ref.System(S.sa, S.sx @ Q.T + t, S.da, S.dx @ Q.T + t, S.dd @ Q.T)
