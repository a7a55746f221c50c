"""C03: particle numbering carries no meaning."""
import itertools

import numpy as np

from mc import ref, repo, space
from mc.forcing import forms_for, prescribe

ID = "C03"
BOUNDS = {
    "quick": "every placement of 2 particles of 4 kinds on 7 sites and of 3 of "
             "3 kinds on 6 sites x every "
             "renumbering of spheres, of dumbbells and every choice of bead "
             "order (matrices and the force-prescribed solutions); crowds of up to 4 "
             "spheres and 4 dumbbells, turned by one and reversed; 6 "
             "arrangements of 3-4 particles in 2 periodic cells",
    "thorough": "placements of up to 4 particles, more periodic arrangements",
}
BOX = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])
SHEAR = ([0, 0.15, 0], [[0, 0, 0.15], [0, 0, 0], [0.15, 0, 0]])
PER = [
    [["S", [0.0, 0.0, 0.0]], ["S", [2.06, 0.2, 0.3]], ["s", [-0.9, -1.5, 0.3]]],
    [["S", [2.5, 2.4, 2.6]], ["s", [0.3, -0.2, 0.1]], ["s", [0.3, 0.9, 0.1]]],
    [["S", [-2.7, 0.1, 0.2]], ["D", [0.3, -0.2, 0.1]], ["E", [0.1, 1.7, 1.9]]],
    [["D", [2.9, 0.0, 2.9]], ["D", [2.9, 0.5, 2.9]], ["E", [-1.0, 1.0, -0.5]]],
]


# the tables for a size ratio and its reciprocal are separate data, agreeing to
# about 1e-6 of the largest coefficient
NEAR = 1e-5
ASSUME = ["near-field values agree between the two orders of a pair to the "
          "precision of the tabulated data (1e-5 of the largest entry)"]


def setup():
    repo.load()


def cases(tier):
    if tier == "quick":
        arr = space.arrangements(2) + space.arrangements(
            3, kmin=3, sites=space.SITES[:6], kinds="SsD")
    else:
        arr = space.arrangements(4)
    out = [["free", a] for a in arr if len(a) > 1 or a[0][0] in "DE"]
    out += [["free", a] for a in space.crowds(4, 4, 5)]
    for a in PER if tier == "quick" else PER + [p + [["s", [1.5, -1.6, -1.4]]] for p in PER[:2]]:
        a = sorted(a, key=lambda t: "SsDE".index(t[0]))
        out += [["periodic", [a, 0]], ["periodic", [a, 1]]]
    return out


def relabel(S, ps, pd, sw):
    sg = np.array([-1.0 if s else 1.0 for s in sw]).reshape(-1, 1)
    return ref.System(S.sa[list(ps)], S.sx[list(ps)], S.da[list(pd)],
                      S.dx[list(pd)], S.dd[list(pd)] * sg[:len(pd)])


def rep(S, ps, pd, sw):
    n, m = S.n, S.m
    P = np.zeros((S.size, S.size))
    for new, old in enumerate(ps):
        for o, w in ((0, 3), (3 * n, 3), (6 * n, 5)):
            P[o + w * new:o + w * new + w, o + w * old:o + w * old + w] = np.eye(w)
    for new, old in enumerate(pd):
        o = 11 * n
        P[o + 3 * new:o + 3 * new + 3, o + 3 * old:o + 3 * old + 3] = np.eye(3)
        o = 11 * n + 3 * m
        P[o + 3 * new:o + 3 * new + 3, o + 3 * old:o + 3 * old + 3] = \
            (-1 if sw[new] else 1) * np.eye(3)
    return P


def orders(k, few):
    """Every order; for a crowd a turn by one and the reverse."""
    if not few:
        return list(itertools.permutations(range(k)))
    return sorted({tuple(np.roll(range(k), 1).tolist()), tuple(range(k))[::-1]})


def swaps(m, few):
    if not few:
        return list(itertools.product((0, 1), repeat=m))
    return sorted({(1,) * m, tuple(i % 2 for i in range(m))})


def check(case, out):
    kind, c = case
    items = c if kind == "free" else c[0]
    S = space.build(items)
    box = BOX if kind != "free" else None
    Ot, Et = SHEAR if kind != "free" and c[1] else (None, None)
    if kind == "free":
        mats = [("mobility", repo.Minf), ("nearfield", repo.R2B)]
    else:
        mats = [("periodic-mobility", lambda s: repo.Minf_periodic(s, box, 1, Ot, Et)),
                ("periodic-nearfield", lambda s: repo.R2B(s, 2, 1, box, Ot, Et))]
    base = [f(S) for _, f in mats]
    form = "fte" if S.n else "fts"
    data = prescribe(S, form, 0, 0, 0)
    r0 = repo.solve(S, form, data, box=box, Ot=Ot, Et=Et) if kind == "free" else None
    out.outcome(base[0])
    few = len(items) > 4
    for ps in orders(S.n, few):
        for pd in orders(S.m, few):
            for sw in swaps(S.m, few):
                S2 = relabel(S, ps, pd, sw)
                out.state(kind, S2.sa, S2.sx, S2.da, S2.dx, S2.dd, Ot)
                P = rep(S, ps, pd, sw)
                out.edge()
                for (tag, f), b in zip(mats, base):
                    out.close(tag, f(S2), P @ b @ P.T, NEAR if "near" in tag else 1e-9)
                if kind != "free":
                    continue
                out.trace()
                sg = np.array([-1.0 if s else 1.0 for s in sw]).reshape(-1, 1)
                d2 = {k: np.asarray(v)[list(ps if k[-1] == "a" else pd)]
                      * (sg if k == "DFb" else 1) for k, v in data.items()}
                r2 = repo.solve(S2, form, d2)
                for k in ("Ua", "Oa", "Sa"):
                    if S.n:
                        out.close("solve|" + k, r2[k], r0[k][list(ps)], NEAR, 1e-10)
                if S.m:
                    out.close("solve|Ub", r2["Ub"], r0["Ub"][list(pd)], NEAR, 1e-10)
                    out.close("solve|HalfDUb", r2["HalfDUb"],
                              r0["HalfDUb"][list(pd)] * sg, NEAR, 1e-10)
