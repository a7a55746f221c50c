"""C07: a dumbbell behaves as its two beads."""
import numpy as np

from mc import ref, repo, space
from mc.forcing import prescribe

ID = "C07"
BOUNDS = {
    "quick": "every placement of 1-3 particles (at least one dumbbell) of 4 "
             "kinds on 7 sites; crowds of 0-4 spheres and 1-4 dumbbells; a sphere/bead/axis grid of 13 directions x 6 "
             "dumbbell lengths x 3 sphere distances; 7 periodic arrangements "
             "in 2 cells",
    "thorough": "placements of up to 4 particles; 29 directions; 3 cells",
}
ASSUME = ["the two-bead result is computed by the same package with the beads "
          "entered as separate spheres and their torque/strain rows dropped, "
          "and in addition by the independent reference"]
BOX = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])
CELLS = [(BOX, None, None),
         (BOX, [0, 0.15, 0], [[0, 0, 0.15], [0, 0, 0], [0.15, 0, 0]]),
         (([-3.0, -4.0, -3.5], [3.0, 4.0, 3.5]), None, None)]
PER = [
    [["D", [0.0, 0.0, 0.0]]], [["E", [1.0, 0.0, 0.0]]],
    [["S", [2.5, 2.4, 2.6]], ["D", [0.3, -0.2, 0.1]]],
    [["S", [2.5, 2.4, 2.6]], ["E", [0.3, -0.2, 0.1]]],
    [["s", [2.5, 2.4, 2.6]], ["D", [-2.6, -2.6, -2.7]]],
    [["D", [2.9, 0.0, 2.9]], ["E", [-1.0, 1.0, -0.5]]],
    [["S", [0.0, 0.0, 0.0]], ["D", [1.2, 0.0, 0.1]], ["E", [-1.0, 2.0, -1.5]]],
]


def setup():
    repo.load()


def cases(tier):
    out = [["arr", a] for a in space.arrangements(3 if tier == "quick" else 4)
           if any(k in "DE" for k, _ in a)]
    out += [["arr", a] for a in space.crowds(4, 4) if a[-1][0] in "DE"]
    for d in (space.HALF if tier == "quick" else space.DIRS + space.GENERIC):
        for ln in (0.2002, 0.21, 0.3, 0.39, 0.41, 2.0):
            for h in (1.35, 2.2, 6.0):
                out.append(["axis", [list(d), ln, h]])
    for i in range(2 if tier == "quick" else 3):
        out += [["per", [i, a]] for a in PER]
    return out


def check(case, out):
    kind, c = case
    box = Ot = Et = None
    if kind == "arr":
        S = space.build(c)
    elif kind == "per":
        box, Ot, Et = CELLS[c[0]]
        S = space.build(c[1])
    else:
        d, ln, h = c
        u = space.unit(d)
        off = h + ln / 2
        S = ref.System([1.0], [[0, 0, 0]], [0.1], [[0.2, -0.3, off]], [u * ln])
        if not space.clear(S):
            out.count("overlapping, skipped")
            return
    n, m = S.n, S.m
    # the same beads as spheres
    B = ref.System(S.ba, S.bx)
    rows = np.concatenate([np.arange(3 * n), 3 * B.n + np.arange(3 * n),
                           6 * B.n + np.arange(5 * n), 3 * n + np.arange(6 * m)]).astype(int)
    if box is None:
        M, MB = repo.Minf(S), repo.Minf(B)
        R, RB = repo.R2B(S), repo.R2B(B)
    else:
        M, MB = repo.Minf_periodic(S, box, 1, Ot, Et), repo.Minf_periodic(B, box, 1, Ot, Et)
        R, RB = repo.R2B(S, 2, 1, box, Ot, Et), repo.R2B(B, 2, 1, box, Ot, Et)
    out.state(kind, S.sa, S.sx, S.da, S.dx, S.dd, Ot)
    out.trace(2)
    out.edge(S.nb)
    out.outcome(M)
    L, L1 = S.L(0.5), S.L(1.0)
    t = "periodic-" if box is not None else ""
    got = M
    want = L @ MB[np.ix_(rows, rows)] @ L.T
    comp(out, t + "mobility", got, want, S)
    comp(out, t + "nearfield", R, L1 @ RB[np.ix_(rows, rows)] @ L1.T, S)
    if box is None and n == 0:
        # whole solution: bead velocities from bead forces
        data = prescribe(S, "duf", 0, 0, 0)
        r = repo.solve(S, "duf", data)
        F, D = np.asarray(data["Fb"]), np.asarray(data["DFb"])
        Rb = np.linalg.inv(MB[np.ix_(rows, rows)]) + RB[np.ix_(rows, rows)]
        u = np.linalg.solve(Rb, np.concatenate([(F - D) / 2, (F + D) / 2]).ravel())
        u = u.reshape(2, m, 3)
        out.close("solve|Ub", r["Ub"], (u[0] + u[1]) / 2, 1e-8)
        out.close("solve|HalfDUb", r["HalfDUb"], (u[1] - u[0]) / 2, 1e-8)


def comp(out, tag, a, b, S):
    n, m = S.n, S.m
    cuts = [0, 3 * n, 6 * n, 11 * n, 11 * n + 3 * m, 11 * n + 6 * m]
    nm = ["U", "O", "E", "Ub", "DUb"]
    for i in range(5):
        for j in range(5):
            x = a[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
            if x.size:
                out.close(tag + "|" + nm[i] + nm[j], x,
                          b[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]], 1e-8, 1e-12)
