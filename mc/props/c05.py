"""C05: far-field couplings equal the multipole expressions for every pair."""
import numpy as np

from mc import ref, repo, space

ID = "C05"
BOUNDS = {
    "quick": "all 29 directions x 14 separations x 9 ordered radii pairs for "
             "two spheres; every placement of 1-3 particles of 4 kinds on 7 "
             "sites and crowds of 0-6 spheres and 0-5 dumbbells, at viscosities 1 and 2.5; every triple of a close pair "
             "with a third particle",
    "thorough": "as quick plus untabulated radii ratios and placements of up "
                "to 4 particles",
}
ASSUME = ["the far-field matrix itself accepts any radii, so untabulated "
          "ratios are included"]
RADII = space.SIZES + [(1, 0.37), (2.3, 1.1)]


def setup():
    repo.load()


def cases(tier):
    out = [["pair", c, 1] for c in space.pair_grid(sizes=RADII)]
    out += [["arr", a, 1] for a in space.arrangements(3 if tier == "quick" else 4)]
    out += [["arr", a, 2.5] for a in space.arrangements(2)]
    out += [["arr", a, 1] for a in space.crowds()]
    if tier != "quick":
        more = [(a, b) for a in (0.05, 0.5, 1, 1.7) for b in (0.05, 0.5, 1, 1.7)]
        out += [["pair", c, 0.3] for c in space.pair_grid(sizes=more)]
    return out


def check(case, out):
    kind, c, mu = case
    S = space.build_pair(c) if kind == "pair" else space.build(c)
    M = repo.Minf(S, mu)
    want = S.Minf(mu)
    out.state(S.sa, S.sx, S.da, S.dx, S.dd, mu)
    out.edge(S.nb * (S.nb + 1) // 2)
    out.trace()
    out.outcome(M)
    if not out.ok(M.shape == want.shape, "shape", str(M.shape)):
        return
    # compare block type by block type so that small blocks are not masked
    n, m = S.n, S.m
    cuts = [0, 3 * n, 6 * n, 11 * n, 11 * n + 3 * m, 11 * n + 6 * m]
    names = ["U", "O", "E", "Ub", "DUb"]
    for i in range(5):
        for j in range(5):
            a = M[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
            b = want[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
            if a.size:
                out.close("far-field|" + names[i] + names[j], a, b, 1e-9, 1e-13)
    if S.nb > 1:
        # couplings between different particles are small next to the
        # diagonal for small particles: compare them on their own scale
        for i in range(S.n):
            for j in range(S.n):
                if i != j:
                    I, J = S.idx(i), S.idx(j)
                    for a, b in ((0, 3), (3, 6), (6, 11)):
                        for e, f in ((0, 3), (3, 6), (6, 11)):
                            out.close("far-field-pair", M[np.ix_(I[a:b], J[e:f])],
                                      want[np.ix_(I[a:b], J[e:f])], 1e-8, 1e-13)
