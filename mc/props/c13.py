"""C13: periodic results depend only on the infinite periodic arrangement."""
import itertools

import numpy as np

from mc import ref, repo, space
from mc.forcing import prescribe, transform_data, transform_out
from mc.props.c14 import overlapping, sh

ID = "C13"
BOUNDS = {
    "quick": "6 arrangements of 2-3 particles (radii 0.1 to 10, dumbbells "
             "across the boundary) x 6 cells x: near field under all 27 (and "
             "all second-neighbour axis) image shifts of each particle, 20 "
             "translations, +-1 and +2 whole-period shears, all axis renamings; "
             "far field and solutions under a representative of each kind",
    "thorough": "far field and solutions under every one of those changes",
}
ASSUME = ["particles and their images do not overlap",
          "the box is at least twice the near-field range, so a pair has one "
          "close image",
          "far field and solutions compared to 1e-6, and to 2e-3 for renamed axes, "
          "where a different set of distant terms is kept (accuracy of the sums)"]
CUBE, TALL = [8.0, 8.0, 8.0], [8.0, 9.0, 10.0]
CELLS = [[CUBE, 0, "xz"], [CUBE, 0.3, "xz"], [CUBE, 0.5, "xz"], [CUBE, -0.85, "xz"],
         [CUBE, 0.4, "xy"], [TALL, 0.2, "xz"]]
# positions in units of an 8-unit box; sizes scaled with the box
ARR = [
    ["unit pair", 1.0, [["S", 1.0, [3.7, 0.2, 0.1]], ["S", 1.0, [-2.2, 0.3, 0.4]]]],
    ["unit pair over the top", 1.0, [["S", 1.0, [0.2, 0.3, 3.8]], ["S", 1.0, [1.4, 0.4, -2.6]]]],
    ["sphere and dumbbell", 1.0, [["S", 1.0, [-3.8, -3.7, -3.6]],
                                  ["D", 0.1, [3.85, 3.2, 3.2], [0.3, 0.1, 0.25]]]],
    ["large pair", 10.0, [["S", 1.0, [3.9, -3.1, 0.0]], ["S", 0.1, [-3.0, -3.2, 0.1]]]],
    ["small pair", 0.1, [["S", 1.0, [0.1, 3.2, -3.9]], ["S", 1.0, [0.2, -2.7, 3.95]]]],
    ["three", 1.0, [["S", 1.0, [3.7, 3.6, 3.5]], ["S", 1.0, [-2.0, 3.3, 3.2]],
                    ["S", 0.1, [3.7, -3.15, 3.4]]]],
]


def setup():
    repo.load()


def kinds():
    sh1 = [list(k) for k in itertools.product((-1, 0, 1), repeat=3) if any(k)]
    sh1 += [[2, 0, 0], [0, -2, 0], [0, 0, 2], [0, 0, -3]]
    near = [["image", i, k] for i in (0, 1, 2) for k in sh1]
    tr = [[x, y, z] for x, y, z in itertools.product((-2.9, 0.0, 5.3), repeat=3)
          if any((x, y, z))][:20]
    near += [["shift", t] for t in tr]
    near += [["period", p] for p in (-1, 1, 2)]
    near += [["axes", list(p)] for p in itertools.permutations(range(3)) if p != (0, 1, 2)]
    far = [["image", 0, [0, 0, 1]], ["image", 1, [1, -1, 1]], ["shift", [5.3, -2.9, 5.3]],
           ["period", 1], ["axes", [1, 2, 0]]]
    return near, far


def cases(tier):
    near, far = kinds()
    out = [["near", c, a, near] for c in CELLS for a in range(len(ARR))]
    if tier == "quick":
        for c in CELLS[:5]:
            for a in (0, 2, 3, 5):
                if a == 5 and c != CELLS[1]:
                    continue
                out += [["far", c, a, far[:3]], ["far", c, a, far[3:]]]
    else:
        out += [["far", c, a, near[i:i + 6]] for c in CELLS for a in range(len(ARR))
                for i in range(0, len(near), 6)]
    return out


def build(a, f=1.0):
    _, s, items = ARR[a]
    sp = [t for t in items if t[0] == "S"]
    du = [t for t in items if t[0] == "D"]
    return ref.System([s * t[1] for t in sp], [s * np.array(t[2]) for t in sp],
                      [s * t[1] for t in du], [s * np.array(t[2]) for t in du],
                      [s * np.array(t[3]) for t in du])


def compute(S, box, g, plane, far, Q=None):
    Ot, Et = map(np.array, sh(g, plane))
    if Q is not None:
        det = round(np.linalg.det(Q))
        Ot, Et = det * Q @ Ot, Q @ Et @ Q.T
        box = np.abs(Q) @ box
    bb = (-np.array(box) / 2, np.array(box) / 2)
    if not far:
        return {"R2B": repo.R2B(S, 2, 1, bb, Ot, Et)}
    form = "fte"
    d = prescribe(S, form, 0, 0, 0)
    if Q is not None:
        d = transform_data(d, Q)
    r = repo.solve(S, form, d, box=bb, Ot=Ot, Et=Et)
    res = {k: r[k] for k in ("Ua", "Oa", "Sa", "Ub", "HalfDUb") if np.size(r[k])}
    res["Minf"] = np.linalg.inv(np.asarray(r["Minf_inv"], float))
    return res


def check(case, out):
    kind, (box, g, plane), a, changes = case
    S = build(a)
    f = ARR[a][1]
    box = f * np.array(box)
    far = kind == "far"
    cell = ref.sheared_cell(box, *map(np.array, sh(g, plane)))
    if overlapping(S, cell):
        out.count("overlapping images, outside the property")
        return
    base = compute(S, box, g, plane, far)
    if not far:
        out.outcome(base["R2B"])
        out.ok(np.any(base["R2B"]) or "near" not in ARR[a][0], "close pair missed")
        want = S.R2B(TAB(), 2.0, 1.0, pairs=ref.nearest_pairs(S, cell))
        out.close("nearest-image near field", base["R2B"], want, 1e-9,
                  scale=max(np.max(np.abs(want)), 1e-3))
        if np.any(want):
            out.count("near-field cases with close pairs")
    out.state(kind, case[1], a)
    for ch in changes:
        Q, S2, g2 = None, S, g
        if ch[0] == "image":
            if ch[1] >= S.n + S.m:
                continue
            d = np.array(ch[2]) @ cell
            sx, dx = S.sx.copy(), S.dx.copy()
            if ch[1] < S.n:
                sx[ch[1]] += d
            else:
                dx[ch[1] - S.n] += d
            S2 = ref.System(S.sa, sx, S.da, dx, S.dd)
        elif ch[0] == "shift":
            t = f * np.array(ch[1])
            S2 = ref.System(S.sa, S.sx + t, S.da, S.dx + t, S.dd)
        elif ch[0] == "period":
            # one period: the top of the cell displaced by one whole box length
            g2 = g + ch[1] * (box[0] / box[2] if plane == "xz" else box[0] / box[1])
        else:
            Q = np.zeros((3, 3))
            for i, j in enumerate(ch[1]):
                Q[i, j] = 1.0
            S2 = space.transform(S, Q)
        r = compute(S2, box, g2, plane, far, Q)
        out.state(kind, case[1], a, ch)
        out.edge()
        out.trace()
        if Q is not None:
            G = space.grand_rep(Q, S.n, S.m)
            b = transform_out({k: v for k, v in base.items() if k[0] in "UOSH"}, Q)
            for k in ("R2B", "Minf"):
                if k in base:
                    b[k] = G @ base[k] @ G.T
        else:
            b = base
        for k in r:
            tol = 1e-9 if k == "R2B" else 2e-3 if Q is not None else 1e-6
            out.close("%s|%s" % (ch[0], k), r[k], b[k], tol, 1e-12,
                      scale=max(np.max(np.abs(b[k])), 1e-6))
        if far:
            out.outcome(r["Minf"])


_T = {}


def TAB():
    if not _T:
        _T[0] = ref.Tables("d")
    return _T[0]
