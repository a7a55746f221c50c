"""Independent reference physics (never imports the code under test).

Far field: every coupling is assembled from derivative tensors of one radial
function f (f = r in free space, the Ewald-split r in a periodic box):
J = delta lap f - grad grad f, and rotations / strains by differentiation.
Near field: Kim & Karrila tensors times tabulated two-sphere scalars.
"""
import itertools
import math

import numpy as np

from mc.core import SRC

EPS = np.zeros((3, 3, 3))
for _p in itertools.permutations(range(3)):
    EPS[_p] = np.linalg.det(np.eye(3)[list(_p)])
I3 = np.eye(3)

# Orthonormal basis of symmetric traceless tensors in the code's 5-vector
# convention: v = B : S with  E00*hs3p1 + E11*hs3m1 etc. on traceless tensors.
_P, _M = 0.5 * (math.sqrt(3) + 1), 0.5 * (math.sqrt(3) - 1)
B5 = np.zeros((5, 3, 3))
B5[0, 0, 0], B5[0, 1, 1] = _P, _M
B5[2, 0, 0], B5[2, 1, 1] = _M, _P
for _b, (_i, _j) in ((1, (0, 1)), (3, (0, 2)), (4, (1, 2))):
    B5[_b, _i, _j] = B5[_b, _j, _i] = math.sqrt(0.5)
for _b in (0, 2):
    B5[_b] -= I3 * np.trace(B5[_b]) / 3


def c5(t):
    """Symmetric traceless tensor(s) to 5-vector(s)."""
    return np.einsum("aij,...ij->...a", B5, np.asarray(t, float))


def u5(v):
    return np.einsum("...a,aij->...ij", np.asarray(v, float), B5)


# ---------------------------------------------------------------- far field
def _matchings(n):
    """Partitions of range(n) into singles and pairs."""
    def rec(items):
        if not items:
            yield (), ()
            return
        h, t = items[0], items[1:]
        for s, p in rec(t):
            yield (h,) + s, p
        for k in range(len(t)):
            for s, p in rec(t[:k] + t[k + 1:]):
                yield s, ((h, t[k]),) + p
    return list(rec(tuple(range(n))))


_L = "ijklmnop"
_PLAN = {}
for _n in range(0, 5):
    plan = {}
    for s, p in _matchings(_n):
        plan.setdefault(len(p), []).append((s, p))
    _PLAN[_n] = plan


def dtensor(x, g, n):
    """n-th derivative tensors at points x (N,3) of the radial function whose
    (1/r d/dr)^k values are g[k] (N,); summed over the points."""
    x = np.atleast_2d(x)
    if n == 0:
        return np.sum(g[0])
    res = np.zeros((3,) * n)
    for npairs, terms in _PLAN[n].items():
        k = n - npairs
        m = n - 2 * npairs
        w = np.asarray(g[k])
        if m == 0:
            core = np.sum(w)
        else:
            sub = ",".join("N" + _L[q] for q in range(m))
            core = np.einsum("N," + sub + "->" + _L[:m], w, *([x] * m))
        for s, p in terms:
            ops, subs = [core], ["".join(_L[q] for q in s)]
            for a, b in p:
                ops.append(I3)
                subs.append(_L[a] + _L[b])
            res += np.einsum(",".join(subs) + "->" + _L[:n], *ops)
    return res


def free_tensors(x):
    """Derivative tensors T[(q, n)] of lap^q r, order n, at x."""
    x = np.atleast_2d(np.asarray(x, float))
    r = np.linalg.norm(x, axis=1)
    T = {}
    for q, (c, p) in {0: (1.0, 1), 1: (2.0, -1)}.items():
        g, co = [], c
        pw = p
        for k in range(5):
            g.append(co * r ** pw)
            co *= pw
            pw -= 2
        for n in range(5):
            T[q, n] = dtensor(x, g, n)
    for n in range(3):
        T[2, n] = np.zeros((3,) * n)
    return T


def blocks(T, a1, a2, mu=1.0):
    """Mobility blocks (11x11: U, Omega, E5 against F, T, S5) from the
    derivative tensors of f at x1 - x2."""
    c = 1 / (8 * math.pi * mu)

    def J(q):
        return I3 * T[q + 1, 0] - T[q, 2]

    def DJ(q):      # d_k J_ij -> [i, j, k]
        return np.einsum("ij,k->ijk", I3, T[q + 1, 1]) - T[q, 3]

    def DDJ(q):     # [i, j, k, l]
        return np.einsum("ij,kl->ijkl", I3, T[q + 1, 2]) - T[q, 4]

    dj, dj2 = DJ(0), DJ(1)
    ddj, ddj2 = DDJ(0), DDJ(1)
    m11 = c * (J(0) + (a1 * a1 + a2 * a2) / 6 * J(1))

    def R(d):       # R_ij = -1/2 eps_jkl d_k J_il
        return -0.5 * np.einsum("jkl,ilk->ij", EPS, d)

    m12 = c * (R(dj) + a1 * a1 / 6 * R(dj2))

    def K(d):       # K_ijk = 1/2 (d_k J_ij + d_j J_ik)
        return 0.5 * (d + np.transpose(d, (0, 2, 1)))

    m13 = -c * (K(dj) + (a1 * a1 / 6 + a2 * a2 / 10) * K(dj2))
    # d_k R_lj = -1/2 eps_jpq d_p d_k J_lq
    dR = -0.5 * np.einsum("jpq,lqpk->ljk", EPS, ddj)
    m22 = c / 2 * np.einsum("ikl,ljk->ij", EPS, dR)

    def DK(dd):     # d_l K_mjk -> [m, j, k, l]
        return 0.5 * (dd + np.transpose(dd, (0, 2, 1, 3)))

    dk, dk2 = DK(ddj), DK(ddj2)
    m23 = -c / 2 * (np.einsum("ilm,mjkl->ijk", EPS, dk)
                    + a2 * a2 / 10 * np.einsum("ilm,mjkl->ijk", EPS, dk2))
    s = np.einsum("iklj->ijkl", dk) + np.einsum("jkli->ijkl", dk)
    s2 = np.einsum("iklj->ijkl", dk2) + np.einsum("jkli->ijkl", dk2)
    m33 = -c / 2 * (s + (a1 * a1 + a2 * a2) / 10 * s2)
    return {"11": m11, "12": m12,
            "13": np.einsum("ijk,ajk->ia", m13, B5),
            "22": m22, "23": np.einsum("ijk,ajk->ia", m23, B5),
            "33": np.einsum("aij,ijkl,bkl->ab", B5, m33, B5)}


def pair_matrix(x, a1, a2, mu=1.0, tensors=None):
    """Full 11x11 block  [U1 O1 E1] <- [F2 T2 S2]  for x = x1 - x2."""
    T = tensors if tensors is not None else free_tensors(x)
    b = blocks(T, a1, a2, mu)
    # lower blocks by reciprocity: exchange the particles and transpose
    Tr = {k: v * (-1) ** k[1] for k, v in T.items()}
    bt = blocks(Tr, a2, a1, mu)
    m = np.zeros((11, 11))
    m[0:3, 0:3] = b["11"]
    m[0:3, 3:6] = b["12"]
    m[0:3, 6:] = b["13"]
    m[3:6, 3:6] = b["22"]
    m[3:6, 6:] = b["23"]
    m[6:, 6:] = b["33"]
    m[3:6, 0:3] = bt["12"].T
    m[6:, 0:3] = bt["13"].T
    m[6:, 3:6] = bt["23"].T
    return m


def self_matrix(a, mu=1.0):
    return np.diag([1 / (6 * math.pi * mu * a)] * 3
                   + [1 / (8 * math.pi * mu * a ** 3)] * 3
                   + [1 / (20 / 3 * math.pi * mu * a ** 3)] * 5)


class System:
    """Spheres and dumbbells; dumbbell beads are force-only spheres."""

    def __init__(self, sa, sx, da=(), dx=(), dd=()):
        self.sa = np.asarray(sa, float).reshape(-1)
        self.sx = np.asarray(sx, float).reshape(-1, 3)
        self.da = np.asarray(da, float).reshape(-1)
        self.dx = np.asarray(dx, float).reshape(-1, 3)
        self.dd = np.asarray(dd, float).reshape(-1, 3)
        self.n, self.m = len(self.sa), len(self.da)
        self.bx = np.concatenate([self.sx, self.dx - self.dd / 2,
                                  self.dx + self.dd / 2])
        self.ba = np.concatenate([self.sa, self.da, self.da])
        self.nb = len(self.ba)
        self.size = 11 * self.n + 6 * self.m

    def posdata(self, rot=None):
        if rot is None:
            rot = np.zeros((self.n, 2, 3))
            rot[:, 0] = self.sx + self.sa[:, None] * np.array([1., 0, 0])
            rot[:, 1] = self.sx + self.sa[:, None] * np.array([0, 0, 1.])
        return (self.sa.copy(), self.sx.copy(), np.array(rot, float),
                self.da.copy(), self.dx.copy(), self.dd.copy())

    def idx(self, b):
        """Rows of bead b in the bead-ordered grand vector, aligned with the
        11 components (force-only beads give 3)."""
        n, m = self.n, self.m
        if b < n:
            return np.concatenate([3 * b + np.arange(3),
                                   3 * n + 3 * b + np.arange(3),
                                   6 * n + 5 * b + np.arange(5)])
        return 11 * n + 3 * (b - n) + np.arange(3)

    def put(self, M, i, j, blk):
        I, J = self.idx(i), self.idx(j)
        M[np.ix_(I, J)] += blk[:len(I), :len(J)]

    def L(self, s):
        """Bead -> (sum, difference) combination: s*[[1,1],[-1,1]]."""
        n, m = self.n, self.m
        L = np.eye(self.size)
        o = 11 * n
        e = np.eye(3 * m) * s
        L[o:o + 3 * m, o:o + 3 * m] = e
        L[o:o + 3 * m, o + 3 * m:] = e
        L[o + 3 * m:, o:o + 3 * m] = -e
        L[o + 3 * m:, o + 3 * m:] = e
        return L

    def Minf(self, mu=1.0):
        M = np.zeros((self.size, self.size))
        for i in range(self.nb):
            self.put(M, i, i, self_matrix(self.ba[i], mu))
            for j in range(self.nb):
                if i == j:
                    continue
                r = self.bx[i] - self.bx[j]
                d = np.linalg.norm(r)
                av = (self.ba[i] + self.ba[j]) / 2
                if d / av < 2.001:
                    r = r * (2.001 * av / d)
                self.put(M, i, j, pair_matrix(r, self.ba[i], self.ba[j], mu))
        L = self.L(0.5)
        return L @ M @ L.T

    def R2B(self, tab, cutoff=2.0, mu=1.0, beadbead=True, pairs=None):
        """Near-field part; pairs may give explicit (i, j, displacement)."""
        R = np.zeros((self.size, self.size))
        if pairs is None:
            pairs = [(i, j, self.bx[j] - self.bx[i])
                     for i in range(self.nb) for j in range(i + 1, self.nb)]
        for i, j, r in pairs:
            s = np.linalg.norm(r) * 2 / (self.ba[i] + self.ba[j])
            if not s < 2 * cutoff:
                continue
            if not beadbead and i >= self.n and j >= self.n:
                continue
            b11, b12, b21, b22 = tab.pair(r, self.ba[i], self.ba[j])
            self.put(R, i, i, b11)
            self.put(R, i, j, b12)
            self.put(R, j, i, b21)
            self.put(R, j, j, b22)
        L = self.L(1.0)
        return mu * (L @ R @ L.T)


# --------------------------------------------------------------- near field
class Tables:
    """Two-sphere scalars [11 scalars, 11/12, s', lambda] with lambda over the
    tabulated ratios followed by their reciprocals as found on disk."""

    def __init__(self, which="d", s=None, lam=None, raw=None):
        d = SRC + "/resistance_scalars/"
        name = {"d": "scalars_general_resistance_d.npy",
                "full": "scalars_general_resistance.npy"}
        self.raw = np.load(d + name[which]) if raw is None else raw
        self.s = np.loadtxt(d + "values_of_s_dash.txt") if s is None else s
        lam = np.loadtxt(d + "values_of_lambda.txt") if lam is None else lam
        lam = np.atleast_1d(lam)
        self.base = lam
        self.lam = np.unique(np.round(np.concatenate([lam, 1 / lam]), 12)) \
            if False else self._with_recip(lam)

    @staticmethod
    def _with_recip(lam):
        return np.concatenate([lam, 1. / lam[-2::-1]]) if lam[-1] == 1 else \
            np.concatenate([lam, 1. / lam])

    def scal(self, k, gam, s, lam):
        li = int(np.argmin(np.abs(self.lam - lam)))
        if abs(self.lam[li] - lam) > 1e-5 * lam + 1e-8:
            raise ValueError("size ratio %r not tabulated" % lam)
        return float(np.interp(s, self.s, self.raw[k, gam, :, li]))

    def half(self, d, s, lam, a, gam):
        """11x11 resistance block of sphere 1 (radius a, partner along d,
        ratio lam) from the scalars X^(1 gam)."""
        q = [self.scal(k, gam, s, lam) for k in range(11)]
        return assemble(q, d, a)

    def pair(self, r, a1, a2):
        s = np.linalg.norm(r) * 2 / (a1 + a2)
        d = r / np.linalg.norm(r)
        l12, l21 = a2 / a1, a1 / a2
        A11 = self.half(d, s, l12, a1, 0)
        A22 = self.half(-d, s, l21, a2, 0)
        h12 = self.half(d, s, l12, a1, 1)
        h21 = self.half(-d, s, l21, a2, 1)
        # rows: force/torque/stresslet of 1, columns: motion of 2
        b12 = np.zeros((11, 11))
        b12[0:3, 0:3] = h12[0:3, 0:3]
        b12[3:6, 3:6] = h12[3:6, 3:6]
        b12[6:, 6:] = h12[6:, 6:]
        b12[3:6, 0:3] = h12[3:6, 0:3]
        b12[6:, 0:3] = h12[6:, 0:3]
        b12[6:, 3:6] = h12[6:, 3:6]
        b12[0:3, 3:6] = h21[3:6, 0:3].T
        b12[0:3, 6:] = h21[6:, 0:3].T
        b12[3:6, 6:] = h21[6:, 3:6].T
        for b in (A11, A22):
            b[0:3, 3:6] = b[3:6, 0:3].T
            b[0:3, 6:] = b[6:, 0:3].T
            b[3:6, 6:] = b[6:, 3:6].T
        return A11, b12, b12.T.copy(), A22


def assemble(q, d, a):
    """Lower-triangular blocks (A, B, C, G, H, M) from 11 scalars."""
    XA, YA, YB, XC, YC, XG, YG, YH, XM, YM, ZM = q
    dd = np.outer(d, d)
    P = I3 - dd
    m = np.zeros((11, 11))
    m[0:3, 0:3] = (XA * dd + YA * P) * 6 * math.pi * a
    m[3:6, 0:3] = YB * np.einsum("ijk,k->ij", EPS, d) * 4 * math.pi * a ** 2
    m[3:6, 3:6] = (XC * dd + YC * P) * 8 * math.pi * a ** 3
    G = XG * np.einsum("ij,k->ijk", dd - I3 / 3, d) + YG * (
        np.einsum("i,jk->ijk", d, P) + np.einsum("j,ik->ijk", d, P))
    m[6:, 0:3] = np.einsum("aij,ijk->ak", B5, G) * 4 * math.pi * a ** 2
    w = np.einsum("ikl,l->ik", EPS, d)
    H = YH * (np.einsum("ik,j->ijk", w, d) + np.einsum("jk,i->ijk", w, d))
    m[6:, 3:6] = np.einsum("aij,ijk->ak", B5, H) * 8 * math.pi * a ** 3
    D0 = dd - I3 / 3
    m7 = 1.5 * np.einsum("ij,kl->ijkl", D0, D0)
    # projections of the symmetric traceless identity on m = 1, 2
    m8 = 0.5 * (np.einsum("i,jl,k->ijkl", d, P, d) + np.einsum("j,il,k->ijkl", d, P, d)
                + np.einsum("i,jk,l->ijkl", d, P, d) + np.einsum("j,ik,l->ijkl", d, P, d))
    m9 = 0.5 * (np.einsum("ik,jl->ijkl", P, P) + np.einsum("il,jk->ijkl", P, P)
                - np.einsum("ij,kl->ijkl", P, P))
    Mt = XM * m7 + YM * m8 + ZM * m9
    m[6:, 6:] = np.einsum("aij,ijkl,bkl->ab", B5, Mt, B5) * 20 / 3 * math.pi * a ** 3
    return m


# ----------------------------------------------------------------- periodic
class Radial:
    """Sum of c r^m erfc(l r) and c r^m exp(-l^2 r^2), closed under 1/r d/dr."""

    def __init__(self, lam, e=None, g=None):
        self.lam, self.e, self.g = lam, dict(e or {}), dict(g or {})

    def G(self):
        o = Radial(self.lam)
        l = self.lam
        for m, c in self.e.items():
            if m:
                o.e[m - 2] = o.e.get(m - 2, 0) + c * m
            o.g[m - 1] = o.g.get(m - 1, 0) - 2 * l / math.sqrt(math.pi) * c
        for m, c in self.g.items():
            if m:
                o.g[m - 2] = o.g.get(m - 2, 0) + c * m
            o.g[m] = o.g.get(m, 0) - 2 * l * l * c
        return o

    def lap(self):
        g1 = self.G()
        g2 = g1.G()
        o = Radial(self.lam)
        for m, c in g1.e.items():
            o.e[m] = o.e.get(m, 0) + 3 * c
        for m, c in g1.g.items():
            o.g[m] = o.g.get(m, 0) + 3 * c
        for m, c in g2.e.items():
            o.e[m + 2] = o.e.get(m + 2, 0) + c
        for m, c in g2.g.items():
            o.g[m + 2] = o.g.get(m + 2, 0) + c
        return o

    def __call__(self, r):
        from scipy.special import erfc
        ef, ga = erfc(self.lam * r), np.exp(-(self.lam * r) ** 2)
        return (sum((c * r ** float(m) for m, c in self.e.items()), 0.0 * r) * ef
                + sum((c * r ** float(m) for m, c in self.g.items()), 0.0 * r) * ga)


class Lattice:
    """Ewald sums over a (possibly sheared) lattice with rows = cell vectors."""

    def __init__(self, cell, lam=None, tol=1e-13):
        self.cell = np.asarray(cell, float)
        self.V = abs(np.linalg.det(self.cell))
        Lc = self.V ** (1 / 3)
        self.lam = lam if lam is not None else math.sqrt(math.pi) / Lc
        f = Radial(self.lam, {1: 1.0})
        self.fs = [f, f.lap(), f.lap().lap()]
        self.gs = []
        for q, h in enumerate(self.fs):
            seq = [h]
            for _ in range(4):
                seq.append(seq[-1].G())
            self.gs.append(seq)
        self.rcut = math.sqrt(-math.log(tol)) * 1.15 / self.lam
        self.kcut = 2 * self.lam * math.sqrt(-math.log(tol)) * 1.15
        inv = np.linalg.inv(self.cell)
        self.nmax = [int(math.ceil(self.rcut * np.linalg.norm(inv[:, i]))) + 1
                     for i in range(3)]
        rng = [np.arange(-n, n + 1) for n in self.nmax]
        self.images = np.array(list(itertools.product(*rng))) @ self.cell
        rec = 2 * math.pi * inv.T
        km = [int(math.ceil(self.kcut * np.linalg.norm(self.cell[i]) / (2 * math.pi)))
              for i in range(3)]
        ks = np.array(list(itertools.product(*[range(-k, k + 1) for k in km]))) @ rec
        k2 = np.sum(ks ** 2, axis=1)
        keep = (k2 > 1e-12) & (k2 <= self.kcut ** 2)
        self.k, self.k2 = ks[keep], k2[keep]
        x = self.k2 / (4 * self.lam ** 2)
        self.fk = -8 * math.pi / self.k2 ** 2 * (1 + x + 2 * x * x) * np.exp(-x) / self.V

    def tensors(self, x, self_term=False):
        x = np.asarray(x, float)
        X = x - self.images if not self_term else -self.images
        r = np.linalg.norm(X, axis=1)
        keep = (r < self.rcut) & (r > 1e-9)
        X, r = X[keep], r[keep]
        T = {}
        ph = self.k @ (x if not self_term else np.zeros(3))
        co, si = np.cos(ph), np.sin(ph)
        for q in range(3):
            g = [h(r) for h in self.gs[q]]
            for n in range(5 if q < 2 else 3):
                t = dtensor(X, g, n) if len(r) else np.zeros((3,) * n)
                amp = self.fk * (-self.k2) ** q
                w = {0: co, 1: -si, 2: -co, 3: si, 0 + 4: co}[n] * amp
                if n == 0:
                    t = t + np.sum(w)
                else:
                    t = t + np.einsum("N," + ",".join("N" + _L[p] for p in range(n))
                                      + "->" + _L[:n], w, *([self.k] * n))
                if self_term:
                    t = t - self._wave0(q, n)
                T[q, n] = t
        return T

    def _wave0(self, q, n):
        """Derivatives at the origin of lap^q (r erf(lam r))."""
        co = {}
        for j in range(8):
            co[j + 1] = (2 / math.sqrt(math.pi) * (-1) ** j * self.lam ** (2 * j + 1)
                         / (math.factorial(j) * (2 * j + 1)))
        for _ in range(q):
            co = {m - 1: c * 2 * m * (2 * m + 1) for m, c in co.items() if m > 0}
        g = [np.array([co.get(k, 0.0) * 2 ** k * math.factorial(k)]) for k in range(5)]
        return dtensor(np.zeros((1, 3)), g, n)


def Minf_periodic(sys, lat, mu=1.0):
    M = np.zeros((sys.size, sys.size))
    T0 = lat.tensors(np.zeros(3), True)
    for i in range(sys.nb):
        a = sys.ba[i]
        sys.put(M, i, i, self_matrix(a, mu) + pair_matrix(None, a, a, mu, T0))
        for j in range(i + 1, sys.nb):
            T = lat.tensors(sys.bx[i] - sys.bx[j])
            b = pair_matrix(None, a, sys.ba[j], mu, T)
            I, J = sys.idx(i), sys.idx(j)
            M[np.ix_(I, J)] += b[:len(I), :len(J)]
            M[np.ix_(J, I)] += b[:len(I), :len(J)].T
    L = sys.L(0.5)
    return L @ M @ L.T


def sheared_cell(box, Ot, Et):
    """Rows of the cell sheared by the accumulated rotation and strain, each
    off-diagonal displacement reduced to within half a period."""
    box = np.asarray(box, float)
    cell = np.diag(box)
    # displacement of the cell vector v is Ot x v + Et.v
    add = np.array([np.cross(Ot, v) + np.asarray(Et, float) @ v for v in cell])
    return cell + np.mod(add + box / 2, box) - box / 2


def nearest_pairs(S, cell):
    """Every pair of beads with its shortest periodic displacement."""
    im = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))) @ cell
    res = []
    for i in range(S.nb):
        for j in range(i + 1, S.nb):
            r = S.bx[j] - S.bx[i] + im
            res.append((i, j, r[np.argmin(np.linalg.norm(r, axis=1))]))
    return res
