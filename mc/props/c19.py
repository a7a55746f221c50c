"""C19: pairwise repulsion is equal, opposite, repulsive and short-ranged."""
import itertools
import math

import numpy as np

from mc import ref, repo, sim

ID = "C19"
GAPS = [-1.9, -1.0, -0.1, 0.0, 1e-6, 1e-3, 0.05, 0.1, 0.199, 0.2001, 0.5, 3.0]
DIRS = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (-1, 2, 2), (3, -2, 6)]
RADII = [1.0, 0.1, 10.0, 0.7]
LAWS = [(50, 20), (1.5, 0.0), (0.2, 1000.0)]
BOUNDS = {
    "quick": "pairs: kinds sphere/bead x 16 ordered radius pairs x 12 gaps x 6 directions x "
             "3 laws x with/without prescribed forces; triples and quadruples from a "
             "lattice of 12 sites around contact, 7 mixtures of spheres and dumbbells; 0-4 "
             "held lid spheres; the real input function",
    "thorough": "lattice of 18 sites, 9 mixtures",
}
ASSUME = ["the law, its range s'<2.2 and its cap are those written in the repository: "
          "strength * 2 a1 a2/(a1+a2) * exp(-tau h), h = 2|r|/(a1+a2) - 2"]
SITES = [(0, 0, 0), (2.05, 0, 0), (0, 2.1, 0), (0, 0, 2.0), (1.2, 1.2, 1.2), (-2.15, 0, 0.1),
         (1.0, -1.7, 0), (4.0, 0.5, 0), (0, 4.15, 0.3), (0.3, 0.2, -1.5), (2.0, 2.0, 0),
         (6.1, 0, 0), (-1.1, -1.2, 1.3), (3.0, 1.0, 1.0), (1.0, 0, 3.1), (0, -2.19, 0),
         (0, -2.21, 0), (-4.2, 0, 0)]
MIX = ["SSS", "SD", "D", "DD", "SSD", "SSSS", "SDS", "DDS", "SSSD"]


def setup():
    repo.load([1, 1, 0.1, 1])


def cases(tier):
    out = [["pair", k, a, b, g] for k in ("SS", "SD", "DS", "DD") for a in RADII for b in RADII
           for g in GAPS]
    ns = 12 if tier == "quick" else 18
    for mix in MIX[:7] if tier == "quick" else MIX:
        k = sum(2 if c == "D" else 1 for c in mix)
        r = 1 if k > 3 else 0
        for c in itertools.combinations(range(ns), k):
            if r and (tier == "quick" and sum(c) % 3):
                continue
            out.append(["many", mix, list(c)])
    out += [["lid", n, l] for n in (2, 4, 5) for l in (0, 1, 2) if 2 * l <= n]
    out += [["input", form, list(c)] for form in ("fte", "fts") for c in
            itertools.combinations(range(8), 3)]
    return out


def law(S, strength, tau):
    """Force on every bead, from the law alone."""
    f = np.zeros((S.nb, 3))
    for i in range(S.nb):
        for j in range(S.nb):
            if i == j:
                continue
            r = S.bx[i] - S.bx[j]
            d = math.sqrt(r @ r)
            if d == 0:
                continue
            a, b = S.ba[i], S.ba[j]
            sp = 2 * d / (a + b)
            if sp < 2.2:
                f[i] += strength * 2 * a * b / (a + b) * math.exp(-tau * max(sp - 2, 0)) * r / d
    return f


def forces(S, pre):
    rng = [[0.3, -1.0, 2.0], [-0.7, 0.1, 0.0], [0, 0, -1.0], [5.0, 0.25, -3.0], [1, 1, 1.0]]

    def g(k, c, n):
        return [list(np.array(rng[(i + k) % 5]) * c) for i in range(n)]
    if not pre:
        return [[0, 0, 0] for _ in range(S.n)], [[0, 0, 0] for _ in range(S.m)], \
            [[0, 0, 0] for _ in range(S.m)]
    return g(0, 1.0, S.n), g(1, 1.0, S.m), g(2, 0.5, S.m)


def apply(S, strength, tau, pre, lid=0):
    from setups.functions_inputs import repulsion_forces
    Fa, Fb, DFb = forces(S, pre)
    with repo.quiet():
        r = repulsion_forces(strength, tau, S.n, S.m, S.sx.copy(), S.dx.copy(), S.dd.copy(),
                             S.sa.copy(), S.da.copy(), lid, Fa, Fb, DFb)
    return [np.asarray(x, float).reshape(-1, 3) for x in r]


def judge(S, got, pre, strength, tau, key, out, lid=0):
    b = [np.asarray(x, float).reshape(-1, 3) for x in forces(S, pre)]
    f = law(S, strength, tau)
    n, m = S.n, S.m
    f1, f2 = f[n:n + m], f[n + m:]
    fa = f[:n].copy()
    fa[:2 * lid] = 0
    sc = max(1.0, np.max(np.abs(f)) if f.size else 0)
    tol = 1e-11 * (1 + tau)
    out.close(key + "|spheres", got[0], b[0] + fa, tol, scale=sc)
    out.close(key + "|dumbbell total", got[1], b[1] + f1 + f2, tol, scale=sc)
    out.close(key + "|dumbbell difference", got[2], b[2] + f2 - f1, tol, scale=sc)
    out.outcome(got[0], got[1], got[2])
    out.trace()
    return fa


def check(case, out):
    if case[0] == "pair":
        return pair(case, out)
    if case[0] == "many":
        _, mix, c = case
        S = place(mix, [SITES[i] for i in c])
        for (st, tau), pre in itertools.product(LAWS[:2], (False, True)):
            out.state(case, st, pre)
            out.edge()
            judge(S, apply(S, st, tau, pre), pre, st, tau, "several", out)
        return
    if case[0] == "lid":
        _, n, l = case
        S = ref.System([1.0] * n, [(2.05 * i, 0.01 * i * i, 0) for i in range(n)], [0.1], [[1, 1.0, 0]],
                       [[0.2, 0.05, 0]])
        for pre in (False, True):
            out.state(case, pre)
            out.edge()
            judge(S, apply(S, 50, 20, pre, l), pre, 50, 20, "lid", out, l)
        return
    from setups.inputs import input_ftsuoe
    _, form, c = case
    for mix in ("SSS", "SD"):
        S = place(mix, [SITES[i] for i in c])
        with repo.quiet():
            v = input_ftsuoe(4, S.posdata(), 0, 0.1, [0, 0, 0, 0], input_form=form)
        out.state(case, mix)
        out.edge()
        judge(S, [np.asarray(v[i], float).reshape(-1, 3) for i in (0, 4, 5)], False, 50, 20,
              "input", out)


def place(mix, pts):
    sa, sx, da, dx, dd = [], [], [], [], []
    pts = [np.array(p, float) for p in pts]
    for c in mix:
        p = pts.pop(0)
        if c == "S":
            sa.append(1.0)
            sx.append(p)
        else:
            q = pts.pop(0)
            da.append(1.0)
            dx.append((p + q) / 2)
            dd.append(q - p)
    return ref.System(sa, sx, da, dx, dd)


def pair(case, out):
    """Two beads (a dumbbell's other bead stays out of range)."""
    _, kinds, a, b, g = case
    if a + b == 0 or g <= -2:
        return
    for d in DIRS:
        d = np.array(d, float) / np.linalg.norm(d)
        x = [np.array([0.4, -0.2, 1.0]), np.array([0.4, -0.2, 1.0]) + d * (2 + g) * (a + b) / 2]
        far = np.array([0, 0, 0]) + np.cross(d, [0.3, 1.0, -0.5]) * 400
        sa, sx, da, dx, dd = [], [], [], [], []
        for k, r, p, o in zip(kinds, (a, b), x, (far, -far)):
            if k == "S":
                sa.append(r)
                sx.append(p)
            else:
                da.append(r)
                dx.append(p + o / 2)
                dd.append(o if r != b else -o)     # either bead may be the near one
        S = ref.System(sa, sx, da, dx, dd)
        for (st, tau), pre in itertools.product(LAWS, (False, True)):
            out.state(case, d, st, pre)
            out.edge()
            got = apply(S, st, tau, pre)
            judge(S, got, pre, st, tau, "pair|" + kinds, out)
            if pre:
                continue
            # laws independent of the formula
            tot = got[0].sum(0) + got[1].sum(0)
            out.close("opposite|" + kinds, tot, np.zeros(3), 1e-11, scale=max(1, st * max(a, b)))
            if kinds == "SS":
                F = got[0]
                along = F[1] @ d
                out.ok(np.allclose(F[1], along * d, atol=1e-11 * max(1, st * max(a, b))),
                       "along the line", str(F))
                if g <= 0.1999:
                    out.ok(along >= 0 and (along > 0 or tau * g > 600), "repulsive", str(F))
                    out.ok(along <= st * 2 * a * b / (a + b) * (1 + 1e-12), "capped", str(F))
                if g > 0.2:
                    out.ok(not F.any(), "range", str(F))
