"""C01: resistance is symmetric, finite and positive definite."""
import numpy as np

from mc import ref, repo, space

ID = "C01"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every (radii, separation, direction) of the two-sphere grid "
             "(7 radii pairs x 14 separations x 13 half directions), every "
             "non-overlapping placement of 1-3 particles of 4 kinds on 7 "
             "sites, crowds of 0-6 spheres and 0-5 dumbbells, chains of equal spheres, and periodic/sheared cells",
    "thorough": "two-sphere grid over all 29 directions, placements of 1-4 "
                "particles, longer chains, more cells",
}
ASSUME = ["separations between the enumerated ones are not visited",
          "positive definiteness is decided by the smallest eigenvalue after "
          "scaling each row by the particle's own resistance"]
BOX = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])
CELLS = [
    (BOX, None, None),
    (([-3.0, -4.0, -3.5], [3.0, 4.0, 3.5]), None, None),
    (BOX, [0, 0.15, 0], [[0, 0, 0.15], [0, 0, 0], [0.15, 0, 0]]),
    (BOX, [0, 0.95, 0], [[0, 0, 0.95], [0, 0, 0], [0.95, 0, 0]]),
]
PERIODIC_ITEMS = [
    [["S", [0.0, 0.0, 0.0]]],
    [["S", [0.0, 0.0, 0.0]], ["S", [2.06, 0.2, 0.3]]],
    [["S", [-2.6, 0.1, 0.2]], ["S", [1.2, 0.4, -0.5]], ["s", [-0.7, -1.5, 0.3]]],
    [["S", [2.5, 2.4, 2.6]], ["D", [0.3, -0.2, 0.1]]],
    [["D", [2.9, 0.0, 2.9]], ["E", [-1.0, 1.0, -0.5]]],
    [["s", [0.0, 0.0, 0.0]], ["E", [1.0, 1.0, -1.0]]],
]


def setup():
    repo.load()


def cases(tier):
    dirs = space.HALF if tier == "quick" else None
    out = [["pair", c] for c in space.pair_grid(dirs=dirs)]
    out += [["arr", a] for a in space.arrangements(3 if tier == "quick" else 4)]
    for n in ((4, 6) if tier == "quick" else (4, 5, 6, 8, 12)):
        for sep in (2.0005, 2.02, 2.3, 3.0):
            out.append(["arr", [["S", [sep * i, 0.1 * (i % 2), 0.0]]
                                for i in range(n)]])
    out += [["arr", a] for a in space.crowds()]
    for i in range(len(CELLS) if tier != "quick" else 3):
        for it in PERIODIC_ITEMS:
            out.append(["periodic", [i, it]])
    return out


def scaled(R, S, mobility):
    d = []
    n, m = S.n, S.m
    d += [6 * np.pi * a for a in S.sa for _ in range(3)]
    d += [8 * np.pi * a ** 3 for a in S.sa for _ in range(3)]
    d += [20 / 3 * np.pi * a ** 3 for a in S.sa for _ in range(5)]
    d += [12 * np.pi * a for a in S.da for _ in range(3)] * 2
    s = 1 / np.sqrt(np.array(d))
    if mobility:
        s = 1 / s
    return R * s[:, None] * s[None, :]


def judge(out, tag, A, S, mobility):
    if not out.ok(np.all(np.isfinite(A)), tag + "|finite", "non-finite entries"):
        return
    A = scaled(A, S, mobility)
    out.close(tag + "|symmetric", A, A.T, 1e-9)
    w = np.linalg.eigvalsh((A + A.T) / 2)
    thin = any(max(a, b) == 100 * min(a, b)
               and 2.002 < 2 * np.linalg.norm(x - y) / (a + b) < 2.025
               for a, x in zip(S.ba, S.bx) for b, y in zip(S.ba, S.bx))
    out.ok(w[0] > 1e-9 * w[-1], tag + "|positive" + (
        "|pair of ratio 100 at 2.002<s'<2.025" if thin else ""), "smallest scaled eigenvalue "
           "%r, largest %r" % (w[0], w[-1]))
    out.outcome(w)
    return w


def check(case, out):
    kind, c = case
    if kind == "periodic":
        i, it = c
        box, Ot, Et = CELLS[i]
        S = space.build(it)
        M = repo.Minf_periodic(S, box, 1, Ot, Et)
        R = repo.grandR_periodic(S, box, 1, 2, Ot, Et)
    else:
        S = space.build_pair(c) if kind == "pair" else space.build(c)
        M = repo.Minf(S)
        R = repo.grandR(S)
    out.state(kind, S.sa, S.sx, S.da, S.dx, S.dd,
              case[1][0] if kind == "periodic" else -1)
    out.edge(2)
    out.trace()
    t = "periodic" if kind == "periodic" else "free"
    judge(out, t + "-mobility", M, S, True)
    judge(out, t + "-resistance", R, S, False)
