"""C06: near-field corrections."""
import itertools

import numpy as np

from mc import ref, repo, space

ID = "C06"
BOUNDS = {
    "quick": "all 38 tabulated separations, all midpoints and both sides of "
             "the table ends x all 5 size ratios x 13 half directions (total "
             "against the exact two-sphere tables); the two-sphere grid x 4 "
             "cutoffs; every placement of 1-3 particles of 4 kinds on 7 sites "
             "and crowds of 0-6 spheres and 0-5 dumbbells x 2 cutoffs against the pairwise sum",
    "thorough": "all 29 directions, placements of up to 4 particles, 6 cutoffs",
}
ASSUME = ["the shipped full two-sphere tables are the exact two-sphere "
          "solution (their internal consistency is C21)"]
T = {}


def setup():
    repo.load()
    T["d"] = ref.Tables("d")
    T["full"] = ref.Tables("full")


def cases(tier):
    T.setdefault("d", ref.Tables("d"))
    s = T["d"].s
    out = []
    dirs = space.HALF + space.GENERIC if tier == "quick" else space.DIRS + space.GENERIC
    for lam in T["d"].lam:
        for k in range(len(s)):
            for d in dirs:
                out.append(["table", [1.0 if lam <= 1 else 0.1, k, float(lam), list(d)]])
    mids = [(s[i] + s[i + 1]) / 2 for i in range(len(s) - 1)] \
        + [0.9 * s[i] + 0.1 * s[i + 1] for i in range(len(s) - 1)] \
        + [1.9999, float(s[0]) - 1e-7, float(s[-1])]
    for v in mids:
        for sz in space.SIZES[:5]:
            for d in [(1, 0, 0), (0.3, -0.5, 0.9)]:
                out.append(["pair", [[list(sz), float(v), list(d)], 2]])
    for c in space.pair_grid(dirs=space.HALF if tier == "quick" else None):
        for cut in ((2, 1.5) if tier == "quick" else (2, 1.02, 1.25, 1.5, 1.9, 2.2)):
            out.append(["pair", [c, cut]])
    for a in space.arrangements(3 if tier == "quick" else 4):
        for cut in ((2,) if tier == "quick" else (2, 1.1)):
            out.append(["arr", [a, cut]])
    for a in space.arrangements(2):
        out.append(["arr", [a, 1.1]])
    out += [["arr", [a, 2]] for a in space.crowds()]
    # cutoff edges, exactly at and one ulp either side
    for cut in (1.25, 1.5, 2):
        for sep in (np.nextafter(2 * cut, 0), 2 * cut, np.nextafter(2 * cut, 9)):
            out.append(["edge", [float(sep), cut]])
    return out


def check(case, out):
    kind, c = case
    out.state(kind, c)
    out.trace()
    if kind == "table":
        a1, k, lam, d = c
        s = float(T["d"].s[k])
        S = ref.System([a1, a1 * lam], [[0, 0, 0], space.unit(d) * s * a1 * (1 + lam) / 2])
        if s > 3.99:
            # last table point sits on the cutoff: reach past it
            R2 = repo.R2B(S, 2.5)
        else:
            R2 = repo.R2B(S, 2)
        n = S.n
        want2 = S.R2B(T["d"], 2.5)
        out.edge(1)
        out.outcome(R2)
        blockclose(out, "near-field", R2, want2, S)
        # exact two-sphere resistance: far part inverted plus correction
        if s >= 2.001:
            R = np.linalg.inv(repo.Minf(S)) + R2
            exact = S.R2B(T["full"], 2.5)
            blockclose(out, "two-sphere-total", R, exact, S, 2e-5)
        return
    if kind == "pair":
        cc, cut = c
        S = space.build_pair(cc)
    elif kind == "edge":
        sep, cut = c
        S = ref.System([1, 1], [[0, 0, 0], [sep, 0, 0]])
    else:
        items, cut = c
        S = space.build(items)
    R2 = repo.R2B(S, cut)
    want = S.R2B(T["d"], cut)
    out.edge(S.nb * (S.nb + 1) // 2)
    out.outcome(R2)
    blockclose(out, "pair-sum", R2, want, S)


def blockclose(out, tag, A, B, S, tol=1e-9):
    if not out.ok(A.shape == B.shape, tag + "|shape", "%s %s" % (A.shape, B.shape)):
        return
    n, m = S.n, S.m
    cuts = [0, 3 * n, 6 * n, 11 * n, 11 * n + 3 * m, 11 * n + 6 * m]
    names = ["F", "T", "S", "Fb", "DFb"]
    for i, j in itertools.product(range(5), repeat=2):
        a = A[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
        b = B[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
        if a.size:
            out.close(tag + "|" + names[i] + names[j], a, b, tol, 1e-12)
