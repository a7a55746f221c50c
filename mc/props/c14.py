"""C14: periodic far-field sums equal the true periodic mobility."""
import itertools

import numpy as np

from mc import ref, repo, space

ID = "C14"
BOUNDS = {
    "quick": "5 particle pairs (radii, sphere/bead) x 7 cells (cubic, unequal "
             "sides, sheared in 2 planes by -0.4 to 1.7 box lengths) x 6 "
             "displacements (touching to half a cell, across the boundary), "
             "single particles, and box sizes up to 96 radii",
    "thorough": "8 pairs x 12 cells x 20 displacements",
}
ASSUME = ["the reference sum is evaluated independently to 1e-10 with a "
          "different truncation; its independence of the splitting parameter is "
          "itself checked in every run",
          "agreement to the accuracy of the shipped truncation (2 repeats), in units "
          "of the inverse powers of an 8-unit box: 2e-6 for cubes, 1e-5 "
          "when sheared or with sides differing by up to 30 per cent",
          "particles of a periodic box do not overlap"]


def sh(g, plane="xz"):
    if plane == "xz":
        return [[0, g / 2, 0], [[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]]
    if plane == "zx":
        return [[0, -g / 2, 0], [[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]]
    return [[0, 0, -g / 2], [[0, g / 2, 0], [g / 2, 0, 0], [0, 0, 0]]]


CUBE = [8.0, 8.0, 8.0]
CELLS = [
    [CUBE, 0, "xz"], [[12.5, 12.5, 12.5], 0, "xz"], [[7.0, 8.0, 9.0], 0, "xz"],
    [CUBE, 0.3, "xz"], [CUBE, -0.4, "xz"], [CUBE, 0.25, "xy"], [[7.0, 9.0, 8.0], 1.7, "xz"],
]
MORE = [[CUBE, 0.5, "xz"], [CUBE, 1.0, "xz"], [[8.0, 7.0, 9.0], 0.6, "xy"],
        [CUBE, 0.3, "zx"], [[25.0, 25.0, 25.0], 2.2, "xz"]]
DISP = [[2.05, 0, 0], [1.3, -1.4, 1.2], [4.0, 4.0, 4.0],
        [-3.9, 2.2, 3.1], [0.2, 5.5, -2.0], [7.0, -1.0, 6.5]]
MORED = [list(2.4 * space.unit(d)) for d in space.HALF]
PAIRS = [["S", 1.0, "S", 1.0], ["S", 1.0, "S", 0.1], ["S", 0.1, "S", 1.0],
         ["S", 1.0, "D", 0.1], ["S", 0.1, "D", 1.0]]
MOREP = [["S", 0.1, "S", 0.1], ["S", 2.0, "S", 0.2], ["S", 2.0, "D", 0.2]]


def setup():
    repo.load()


def cases(tier):
    cells, disp, pairs = CELLS, DISP, PAIRS
    if tier != "quick":
        cells, disp, pairs = CELLS + MORE, DISP + MORED, PAIRS + MOREP
    out = [["pair", c, p, d] for c, p, d in itertools.product(cells, pairs, disp)]
    out += [["one", c, [k, a], mu] for c in cells for k, a in (("S", 1.0), ("S", 0.5), ("D", 1.0))
            for mu in (1, 2.5)]
    out += [["large", L, [k, a]] for L in (12.0, 24.0, 48.0, 96.0)
            for k, a in (("S", 1.0), ("S", 2.0), ("D", 1.0))]
    out += [["split", c, f] for c in cells for f in (0.8, 1.25)]
    return out


def system(pair, d):
    k1, a1, k2, a2 = pair
    x0 = np.array([0.3, -0.2, 0.15])
    x1 = x0 + np.array(d)
    if k2 == "S":
        return ref.System([a1, a2], [x0, x1])
    half = np.array([0.0, 0.0, 1.2 * a2])
    return ref.System([a1], [x0], [a2], [x1 + half], [2 * half])


def tol(box, g):
    """Accuracy of the shipped truncation for sides of 8 units."""
    if max(box) - min(box) > 1e-9:
        return 1.01e-5
    return 1e-5 if g else 2e-6


def overlapping(S, cell):
    im = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))) @ cell
    for i in range(S.nb):
        for j in range(i, S.nb):
            r = np.linalg.norm(S.bx[j] - S.bx[i] + im, axis=1)
            if np.any((r > 1e-9) & (r < 1.0006 * (S.ba[i] + S.ba[j]))):
                return True
            if i != j and np.any(r <= 1e-9):
                return True
    return False


def blocks_close(out, key, S, got, want, box, g, mu):
    """Compare block by block; the lattice contribution to a coupling of order
    p decays like L^-p, and so does its truncation error."""
    n, m = S.n, S.m
    edges = [0, 3 * n, 6 * n, 11 * n, 11 * n + 6 * m]
    names, order = "UOEB", (0.5, 1.5, 1.5, 0.5)
    L = np.prod(box) ** (1 / 3)
    for a in range(4):
        for b in range(4):
            if edges[a] == edges[a + 1] or edges[b] == edges[b + 1]:
                continue
            blk = np.s_[edges[a]:edges[a + 1], edges[b]:edges[b + 1]]
            unit = (8 / L) ** (order[a] + order[b]) / mu
            out.close("%s-%s|%s%s" % (key, "unequal" if tol(box, g) > 1e-5 else
                                      "sheared" if g else "cubic", names[a], names[b]),
                      got[blk] / unit, want[blk] / unit,
                      0, tol(box, g) + 1e-12 * np.max(np.abs(want[blk])), scale=1)


def check(case, out):
    kind = case[0]
    if kind == "split":
        box, g, pl = case[1]
        cell = ref.sheared_cell(box, *map(np.array, sh(g, pl)))
        S = system(PAIRS[1], DISP[1])
        a = ref.Minf_periodic(S, ref.Lattice(cell))
        lam = np.sqrt(np.pi) / np.linalg.det(cell) ** (1 / 3)
        b = ref.Minf_periodic(S, ref.Lattice(cell, lam * case[2]))
        out.close("reference-split", a, b, 1e-9)
        out.edge()
        return
    if kind == "large":
        L, (k, a) = case[1:]
        S = ref.System([a], [[0.1, 0.2, 0.3]]) if k == "S" else \
            ref.System([], [], [a], [[0.1, 0.2, 0.3]], [[0, 0, 2.4 * a]])
        M = repo.Minf_periodic(S, ([-L / 2] * 3, [L / 2] * 3))
        F = S.Minf()
        out.state(case)
        out.edge()
        out.trace()
        out.outcome(M)
        u = M[:3, :3] - F[:3, :3]
        # leading image interaction: a uniform reduction 2.837297/(6 pi mu L)
        want = -2.837297 / (6 * np.pi * L) * np.eye(3)
        out.close("large-box|translation", u * L, want * L, 0, 1.5 * (a / L) ** 2)
        if k == "S":
            for nm, s in (("rotation", np.s_[3:6, 3:6]), ("strain", np.s_[6:, 6:])):
                # decay with the cube of box length
                out.close("large-box|" + nm, (M[s] - F[s]) * L ** 3, 0 * M[s], 0, 3.0)
        return
    box, g, pl = case[1]
    Ot, Et = sh(g, pl)
    cell = ref.sheared_cell(box, np.array(Ot), np.array(Et))
    if kind == "one":
        (k, a), mu = case[2:]
        S = ref.System([a], [[0.1, 0.2, 0.3]]) if k == "S" else \
            ref.System([], [], [a], [[0.1, 0.2, 0.3]], [[0.3, -0.2, 2.4 * a]])
    else:
        S, mu = system(case[2], case[3]), 1
    if overlapping(S, cell):
        out.count("overlapping images, outside the property")
        return
    got = repo.Minf_periodic(S, ([-box[0] / 2, -box[1] / 2, -box[2] / 2],
                                 [box[0] / 2, box[1] / 2, box[2] / 2]), mu, Ot, Et)
    want = ref.Minf_periodic(S, ref.Lattice(cell), mu)
    out.state(kind, case)
    out.edge()
    out.trace()
    out.outcome(got)
    blocks_close(out, "lattice-sum", S, got, want, box, g, mu)
