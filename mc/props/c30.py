"""C30: the numbered arrangements and inputs are the ones described."""
import itertools
import math
import os

import numpy as np

from mc import ref, repo, sim, space

ID = "C30"
FORMS = ["fte", "fts", "ufte", "ufteu", "duf"]
FRAMES = [0, 1, 2, 2.5, 7, 25, 100]
STEPS = [0.1, 0.5, 1.0]
BOUNDS = {
    "quick": "arrangements 1-7 (arrangements 5 and 6, drawn at random, under 3 generator "
             "states; the draws themselves are C18's); inputs 1-7 x 5 input forms x every mixture of 0-6 spheres "
             "and 0-5 dumbbells x 7 instants x 3 timesteps x quick/full evaluation; input 6 "
             "with 90-99 spheres",
    "thorough": "12 generator states; also every placement of 1-3 particles on the shared sites",
}
ASSUME = ["the descriptions are those of the README's examples and of the comments beside "
          "each numbered case; input 4 is judged in the forms that prescribe all forces "
          "(known finding of C17)"]
PARTS = {"Fa": 0, "Ta": 1, "Sa": 2, "Fb": 4, "DFb": 5, "Ua": 6, "Oa": 7, "Ea": 8, "Ub": 10,
         "HalfDUb": 11}
CASE_LIMIT = 400


def setup():
    sim.preload()


def cost(case):
    return 20 if case[0] == "arrangement" else 1


def cases(tier):
    out = []
    for n in range(1, 8):
        states = [0] if n not in (5, 6) else range(3 if tier == "quick" else 12)
        out += [["arrangement", n, s] for s in states]
    mix = [space.crowd(n, m) for n in range(7) for m in range(6) if n + m]
    if tier != "quick":
        mix += space.arrangements(3)
    out += [["input", n, f, items] for n in range(1, 8) if n != 6 for f in FORMS for items in mix
            if not (n == 4 and f not in ("fte", "fts"))]
    out += [["mixed", f, 99] for f in FORMS]
    return out


# -- arrangements ------------------------------------------------------------------

def load(n, state):
    repo.load([n, 1, 0.1, 1])
    np.random.seed(state)
    import random
    random.seed(state)
    with repo.quiet():
        import setups.positions as sp
        a = [np.array(v, float) for v in sp.posdata]
        b, desc = sp.pos_setup(n)
    return a, [np.array(v, float) for v in b], desc


def wall(z):
    return [[2.00001 * (i - 22), 0, z] for i in range(45)]


FIXED = {
    1: [[4 * i, 0, 0] for i in range(15)],
    2: [[-5, 0, 0], [0, 0, 0], [7, 0, 0]],
    4: [[0, 0, 0], [4.5, 0, 4.5]],
    6: wall(0) + wall(11),
    7: wall(-5) + wall(5) + [[i, 0, j] for i in (-4, 0, 4) for j in (-2.5, 0, 2.5)],
}


def arrangement(case, out):
    _, n, state = case
    d = sim.workdir()
    here = os.getcwd()
    try:
        os.chdir(d)
        a, b, _ = sim.isolated(load, n, state)
    finally:
        os.chdir(here)
        sim.drop(d)
    t = "arrangement %d" % n
    for p in (a, b):      # the one taken by a run, and the one handed out again
        sa, sx, rot, da, dx, dd = p
        out.state(case, p is a)
        out.edge()
        k = {1: 15, 2: 3, 3: 8, 4: 2, 5: 41, 6: 90, 7: 99}[n]
        m = {4: 2, 6: 200}.get(n, 0)
        if not out.ok(sa.shape == (k,) and sx.shape == (k, 3) and rot.shape == (k, 2, 3)
                      and da.shape == (m,) and dx.shape == (m, 3) and dd.shape == (m, 3),
                      t + "|numbers", str([v.shape for v in p])):
            continue
        out.ok(np.all(sa == 1) and np.all(da == 0.1), t + "|sizes", "%s %s" % (sa, da))
        out.close(t + "|markers", rot - sx[:, None, :],
                  np.broadcast_to([[1., 0, 0], [0, 0, 1]], (k, 2, 3)), 1e-12, scale=1)
        if n in FIXED:
            out.close(t + "|places", sx, np.array(FIXED[n], float), 1e-12, scale=1)
        if n == 3:
            # two spheres to each edge of the cell of side 8
            want = {(x, y, z) for x in (0, 4) for y in (0, 4) for z in (0, 4)}
            q = sx - sx.min(0)
            out.ok({tuple(np.round(r, 9)) for r in q} == want, t + "|places", str(sx))
        if n == 4:
            out.close(t + "|dumbbells", dx, [[4.5, 0, 0], [0, 0, 4.5]], 1e-12, scale=1)
            out.close(t + "|extents", dd, [[math.sqrt(2), 0, math.sqrt(2)]] * 2, 1e-12, scale=1)
        if n == 5:
            out.ok(np.all(np.abs(sx[:, [0, 2]]) <= 8.1 - 1 + 1e-9) and not np.any(sx[:, 1]),
                   t + "|region", str(sx))
        if n == 6:
            out.close(t + "|lengths", np.linalg.norm(dd, axis=1), np.full(m, 2.0), 1e-9, scale=1)
            e = np.concatenate([dx - dd / 2, dx + dd / 2])
            out.ok(np.all(np.abs(e[:, 1]) < 1e-9) and np.all(np.abs(e[:, 0]) <= 17 + 1e-9)
                   and np.all(e[:, 2] >= 1.2 - 1e-9) and np.all(e[:, 2] <= 9.8 + 1e-9),
                   t + "|region", "beads outside")
        S = ref.System(sa, sx, da, dx, dd)
        gap = min((np.linalg.norm(S.bx[i] - S.bx[:i], axis=1) - S.ba[i] - S.ba[:i]).min()
                  for i in range(1, S.nb))
        out.ok(gap > -1e-9, t + "|overlap", str(gap))
        out.outcome(sx, dx, dd)
    out.trace()


# -- inputs ------------------------------------------------------------------------

def number(v):
    """The entries given, those left blank as nan."""
    v = np.array(v, dtype=object)
    return np.array([float(x) if isinstance(x, (int, float, np.number)) else math.nan
                     for x in v.ravel()]).reshape(v.shape)


def blank(n, m):
    w = {k: np.full((n, 3), math.nan) for k in ("Fa", "Ta", "Ua", "Oa")}
    w.update({k: np.full((m, 3), math.nan) for k in ("Fb", "DFb", "Ub", "HalfDUb")})
    w.update({k: np.full((n, 3, 3), math.nan) for k in ("Sa", "Ea")})
    return w


def expected(k, form, S, t):
    """What the description prescribes: (parts, flow, box)."""
    w = blank(S.n, S.m)
    for name in {"fte": "Fa Ta Ea Fb DFb", "fts": "Fa Ta Sa Fb DFb",
                 "ufte": "Ta Ea Fb DFb"}.get(form, "").split():
        w[name][:] = 0
    flow = [np.zeros(3), np.zeros(3), np.zeros(3), np.zeros(3), np.zeros((3, 3))]
    box = np.zeros(3)
    if k in (1, 2):
        w["Fa"][:] = [0, 0, -1]
    if k == 2:
        box = np.full(3, 8.0)
    if k == 3:
        ln = np.linalg.norm(S.dd, axis=1)[:, None] if S.m else 1
        w["DFb"][:] = -(S.dd - 2 * S.dd / ln)
        om = 2 * math.pi / 10
        shear(w, flow, om / 3 * math.cos(om * t), math.sin(om * t) / 3, [2.25, 0, 2.25])
    if k == 4:
        from mc.props.c19 import law
        f = law(S, 50, 20)
        n, m = S.n, S.m
        w["Fa"] = f[:n]
        w["Fb"] = f[n:n + m] + f[n + m:]
        w["DFb"] = f[n + m:] - f[n:n + m]
    if k == 5:
        for i in range(S.n):
            w["Ua"][i] = [-1 if i < S.n // 2 else 1, 0, 0]
    if k == 6:
        w["Ua"][:45] = [-1, 0, 0]
        w["Ua"][45:90] = [1, 0, 0]
        w["Fa"][90:] = [10, 0, 0]
    if k == 7:
        shear(w, flow, 1.0, t, [0, 0, 0])
    return w, flow, box


def shear(w, flow, rate, acc, centre):
    E = np.zeros((3, 3))
    E[0, 2] = E[2, 0] = 0.5
    w["Ea"][:] = rate * E
    flow[1:] = [np.array([0, rate / 2, 0]), np.array(centre, float), np.array([0, acc / 2, 0]),
                acc * E]


def given(case, out):
    repo.load([1, 1, 0.1, 1])
    from setups.inputs import input_ftsuoe
    if case[0] == "mixed":
        _, form, count = case
        k, S = 6, ref.System([1.0] * count, [[3.0 * i, 0, 0.1 * i] for i in range(count)])
    else:
        _, k, form, items = case
        S = space.build(items)
    for f, dt, skip in itertools.product(FRAMES, STEPS, (False, True)):
        pd = S.posdata()
        keep = [np.array(v, float) for v in pd]
        with repo.quiet():
            v = input_ftsuoe(k, pd, f, dt, [0, 0, 0, 0], input_form=form, skip_computation=skip)
        t = "input %d" % k
        out.state(case, f, dt, skip)
        out.edge()
        w, flow, box = expected(k, form, S, f * dt)
        if not skip:
            for name, i in PARTS.items():
                if name == "Ea" and k in (3, 7) and S.n == 0:
                    continue      # then one strain rate stands for the flow
                g = number(v[i]).reshape(-1, *w[name].shape[1:])
                if not out.ok(g.shape == w[name].shape, "%s|%s shape" % (t, name), str(g.shape)):
                    continue
                miss = np.isnan(w[name])
                if not out.ok(np.array_equal(np.isnan(g), miss), "%s|%s given" % (t, name),
                              "%s frame %s: %s" % (form, f, g)):
                    continue
                out.close("%s|%s" % (t, name), g[~miss], w[name][~miss], 1e-12, 1e-12, scale=1,
                          msg="%s frame %s" % (form, f))
        for name, i, x in zip(("U", "O", "centre", "Ot", "Et"), range(13, 18), flow):
            out.close("%s|flow %s" % (t, name), np.asarray(v[i], float), x, 1e-12, 1e-12, scale=1,
                      msg="frame %s dt %s" % (f, dt))
        out.close(t + "|box", np.asarray(v[19], float) - np.asarray(v[18], float), box, 1e-12,
                  scale=1)
        if k == 2:
            from setups.functions_positions import simple_cubic_8
            bl = np.asarray(v[18], float)
            x = np.asarray(simple_cubic_8(8)[0], float)
            out.ok(np.all(x >= bl - 1e-9) and np.all(x < bl + 8), t + "|box place", str(bl))
        out.ok(float(v[20]) == 1.0, t + "|viscosity", str(v[20]))
        out.ok(all(np.array_equal(a, np.asarray(b, float)) for a, b in zip(keep, pd)),
               t + "|arrangement altered", "")
        if (f, dt, skip) == (1, 0.1, False):
            out.outcome(*[np.nan_to_num(w[q], nan=-99.0) for q in w])
    out.trace()


def check(case, out):
    if case[0] == "arrangement":
        arrangement(case, out)
    else:
        sim.aside(given, case, out)
