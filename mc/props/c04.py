"""C04: scaling with length, viscosity and forcing; superposition."""
import numpy as np

from mc import ref, repo, space
from mc.forcing import forms_for, prescribe, combine

ID = "C04"
BOUNDS = {
    "quick": "length factors {0.01, 0.5, 3, 40} and viscosities {0.1, 7} x "
             "every placement of 1-3 particles of 4 kinds on 7 sites "
             "and crowds of up to 5 spheres and 4 dumbbells (matrices); every input form x numbers of prescribed-motion "
             "particles x placements of 1-2 particles: scaling and "
             "superposition of complete solutions; 4 periodic arrangements",
    "thorough": "placements of up to 4 (matrices) and 3 (solutions)",
}
KS = [0.01, 0.5, 3.0, 40.0]
MUS = [0.1, 7.0]
BOX = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])
PER = [
    [["S", [0.0, 0.0, 0.0]]],
    [["S", [0.0, 0.0, 0.0]], ["S", [2.06, 0.2, 0.3]]],
    [["S", [2.5, 2.4, 2.6]], ["D", [0.3, -0.2, 0.1]]],
    [["D", [2.9, 0.0, 2.9]], ["E", [-1.0, 1.0, -0.5]]],
]
DIM = {"U": 0, "O": 1, "E": 1}


def setup():
    repo.load()


def cases(tier):
    out = [["matrix", a] for a in space.arrangements(3 if tier == "quick" else 4)]
    out += [["matrix", a] for a in space.crowds(5, 4, 6)]
    for a in space.arrangements(2 if tier == "quick" else 3):
        S = space.build(a)
        for f in forms_for(S.n, S.m):
            out.append(["solve", a, f])
    out += [["periodic", a] for a in PER]
    return out


def scale(S, k):
    return ref.System(S.sa * k, S.sx * k, S.da * k, S.dx * k, S.dd * k)


def powers(S):
    return np.array([0] * 3 * S.n + [1] * 8 * S.n + [0] * 6 * S.m)


def check(case, out):
    kind, items = case[:2]
    S = space.build(items)
    p = powers(S)
    if kind == "matrix":
        M, R = repo.Minf(S), repo.R2B(S)
        out.outcome(M)
        for k, mu in [(k, 1.0) for k in KS] + [(1.0, m) for m in MUS] + [(3.0, 0.1)]:
            S2 = scale(S, k)
            out.state(S2.sa, S2.sx, S2.da, S2.dx, mu)
            out.edge(2)
            out.trace()
            w = k ** (1.0 + p[:, None] + p[None, :]) * mu
            out.close("mobility", repo.Minf(S2, mu) * w, M, 1e-9)
            out.close("nearfield", repo.R2B(S2, 2, mu) / w, R, 1e-9)
        return
    if kind == "periodic":
        M = repo.Minf_periodic(S, BOX)
        R = repo.R2B(S, 2, 1, BOX)
        out.outcome(M)
        for k, mu in [(0.5, 1.0), (3.0, 1.0), (1.0, 7.0)]:
            S2 = scale(S, k)
            bx = (np.array(BOX[0]) * k, np.array(BOX[1]) * k)
            out.state("p", S2.sa, S2.sx, mu)
            out.edge(2)
            w = k ** (1.0 + p[:, None] + p[None, :]) * mu
            out.close("periodic-mobility", repo.Minf_periodic(S2, bx, mu) * w, M, 1e-9)
            out.close("periodic-nearfield", repo.R2B(S2, 2, mu, bx) / w, R, 1e-9)
        return
    form, ks, kd = case[2]
    d1, d2 = prescribe(S, form, ks, kd, 0), prescribe(S, form, ks, kd, 3)
    r1, r2 = repo.solve(S, form, d1), repo.solve(S, form, d2)
    out.outcome(r1["Ub"] if S.m else r1["Ua"])
    names = [k for k in repo.NAMES if r1[k].size]
    for a, b in ((1, 1), (-2.5, 0), (1e-3, -1e3)):
        r = repo.solve(S, form, combine(d1, d2, a, b))
        out.state("lin", items, form, ks, kd, a, b)
        out.edge()
        out.trace()
        for k in names:
            out.close("superposition|%s|%s" % (form, k), r[k], a * r1[k] + b * r2[k],
                      1e-7, 1e-12)
    # forces ~ mu k^2, torques/stresslets mu k^3, U ~ k, rates 1 (time fixed)
    pw = {"Fa": 2, "Fb": 2, "DFb": 2, "Ta": 3, "Sa": 3, "Ua": 1, "Ub": 1,
          "HalfDUb": 1, "Oa": 0, "Ea": 0}
    isf = ("Fa", "Fb", "DFb", "Ta", "Sa")
    for k, mu in ((0.01, 1.0), (40.0, 1.0), (1.0, 7.0)):
        S2 = scale(S, k)
        f = {q: k ** pw[q] * (mu if q in isf else 1) for q in pw}
        dd = {q: [None if x is None else (np.asarray(x) * f[q]).tolist() for x in v]
              for q, v in d1.items()}
        r = repo.solve(S2, form, dd, mu=mu)
        out.state("scale", items, form, ks, kd, k, mu)
        out.edge()
        out.trace()
        for q in names:
            out.close("scaling|%s|%s" % (form, q), r[q] / f[q], r1[q], 1e-7, 1e-12)
