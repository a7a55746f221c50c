"""C02: rotations, reflections and translations of free-space problems."""
import numpy as np

from mc import ref, repo, space
from mc.forcing import forms_for, prescribe, transform_data, transform_out

ID = "C02"
BOUNDS = {
    "quick": "all 48 signed permutations and 3 generic (im)proper rotations x "
             "every placement of 1-2 particles of 4 kinds on 7 sites; 3 group "
             "elements and a translation x every placement of 3; every input "
             "form x every number of prescribed-motion particles x 4 group "
             "elements with a background flow",
    "thorough": "as quick with 48+3 elements for 3 particles on 5 sites and 4 "
                "elements for placements of 4",
}
ASSUME = ["free space only, as the statement says"]
OCT = space.octahedral()
GEN = [space.rotation((1, 2, -0.5), 0.8), -space.rotation((0.2, -1, 0.4), 2.1),
       space.rotation((0, 0, 1), 1e-3)]
ALL = OCT + GEN
# quarter turn with reflection, three-fold turn, generic improper
FEW = [i for i, Q in enumerate(OCT)
       if np.array_equal(Q, [[0, -1, 0], [1, 0, 0], [0, 0, -1]])] + \
      [i for i, Q in enumerate(OCT)
       if np.array_equal(Q, [[0, 0, 1], [1, 0, 0], [0, 1, 0]])] + [49]
SHIFTS = [[0, 0, 0], [13.7, -2.2, 5.1]]


def setup():
    repo.load()


def cases(tier):
    two = space.arrangements(2)
    out = [["matrix", a, list(range(len(ALL)))] for a in two]
    if tier == "quick":
        out += [["matrix", a, FEW] for a in space.arrangements(3, kmin=3)]
    else:
        out += [["matrix", a, list(range(len(ALL)))]
                for a in space.arrangements(3, kmin=3, sites=space.SITES[:5])]
        out += [["matrix", a, FEW] for a in space.arrangements(4, kmin=3)]
    for a in two + ([] if tier == "quick" else
                    space.arrangements(3, kmin=3, sites=space.SITES[:5])):
        S = space.build(a)
        for f in forms_for(S.n, S.m):
            out.append(["solve", a, f])
    return out


def check(case, out):
    kind, items, arg = case
    S = space.build(items)
    out.trace()
    if kind == "matrix":
        M, R = repo.Minf(S), repo.grandR(S)
        for q in arg:
            Q = ALL[q]
            for t in SHIFTS if len(arg) < 10 or q in FEW else SHIFTS[:1]:
                S2 = space.transform(S, Q, t)
                T = space.grand_rep(Q, S.n, S.m)
                out.state(S2.sa, S2.sx, S2.da, S2.dx, S2.dd)
                out.edge()
                M2 = repo.Minf(S2)
                out.close("mobility", M2, T @ M @ T.T, 1e-10)
                if len(arg) < 10 or q % 3 == 0 or q >= 48:
                    R2 = repo.grandR(S2)
                    out.close("resistance", R2, T @ R @ T.T, 1e-8)
        out.outcome(R)
        return
    from functions.timestepping import (add_background_flow_spheres,
                                        add_background_flow_dumbbells)
    form, ks, kd = arg
    data = prescribe(S, form, ks, kd, 0)
    U, O, c = np.array([0.3, -0.2, 0.5]), np.array([0.1, 0.7, -0.4]), \
        np.array([0.6, -1.0, 0.2])

    def total(S, r, U, O, c, E):
        v = {}
        if S.n:
            v["Ua"], v["Oa"] = add_background_flow_spheres(
                r["Ua"], r["Oa"], r["Ea"], U, O, S.sx, c)
        if S.m:
            v["Ub"], v["HalfDUb"] = add_background_flow_dumbbells(
                r["Ub"], r["HalfDUb"], E, U, O, S.dx, S.dd, c)
        return v

    r0 = repo.solve(S, form, data, U_inf=U, O_inf=O, centre=c)
    E0 = r0["Ea"] if S.n else np.array([[[0.1, 0.2, -0.3], [0.2, 0.4, 0], [-0.3, 0, -0.5]]])
    v0 = total(S, r0, U, O, c, E0)
    for q in FEW + [5]:
        Q = ALL[q]
        t = np.array([1.3, 0.2, -0.7])
        det = round(np.linalg.det(Q))
        S2 = space.transform(S, Q, t)
        out.state(form, ks, kd, q, S2.sx, S2.dx)
        out.edge()
        d2 = transform_data(data, Q)
        U2, O2, c2 = Q @ U, det * Q @ O, Q @ c + t
        r2 = repo.solve(S2, form, d2, U_inf=U2, O_inf=O2, centre=c2)
        want = transform_out(r0, Q)
        for k in want:
            if want[k].size:
                out.close("solve|%s|%s" % (form, k), r2[k], want[k], 1e-7,
                          1e-9 * max(1.0, np.max(np.abs(want[k]))))
        E2 = np.einsum("ij,njk,lk->nil", Q, E0, Q)
        v2 = total(S2, r2, U2, O2, c2, E2)
        for k, v in transform_out(v0, Q).items():
            out.close("flow|%s|%s" % (form, k), v2[k], v, 1e-7, 1e-9)
    out.outcome(r0["Ub"] if S.m else r0["Ua"])
