"""C08: every input form gives the same physics."""
import numpy as np

from mc import ref, repo, space
from mc.forcing import forms_for, prescribe

ID = "C08"
BOUNDS = {
    "quick": "every input form x every number of prescribed-motion spheres "
             "and dumbbells x 3 data patterns x every placement of 1-3 "
             "particles (3 of 2 kinds on 5 sites, 1-2 of 4 kinds on 7) and 4 crowds of "
             "4-6; each "
             "generic solution re-prescribed in every other form",
    "thorough": "placements of up to 3 on 7 sites, 4 on 5 sites, 4 patterns",
}
ASSUME = ["duf is for dumbbell-only problems, fte/ufte/ufteu need a sphere, as "
          "documented"]
T = {}


def setup():
    repo.load()
    T["d"] = ref.Tables("d")


def cases(tier):
    if tier == "quick":
        arr = space.arrangements(2) + [a for a in space.arrangements(
            3, kmin=3, sites=space.SITES[:5], kinds="SD")]
        pats = (0, 1, 2)
    else:
        arr = space.arrangements(3) + space.arrangements(
            4, kmin=4, sites=space.SITES[:5], kinds="SsD")
        pats = (0, 1, 2, 3)
    out = [[space.crowd(n, m), f, 0] for n, m in ((3, 3), (4, 2), (0, 4), (5, 0))
           for f in forms_for(n, m)]
    for a in arr:
        S = space.build(a)
        for f in forms_for(S.n, S.m):
            out += [[a, f, p] for p in pats]
    return out


def gvec(r, S, force):
    z = np.zeros(0)
    n, m = S.n, S.m
    if force:
        q = [r["Fa"], r["Ta"], ref.c5(r["Sa"]) if n else z, r["Fb"], r["DFb"]]
    else:
        q = [r["Ua"], r["Oa"], ref.c5(r["Ea"]) if n else z, r["Ub"], r["HalfDUb"]]
    return np.concatenate([np.ravel(x) for x in q])


def check(case, out):
    items, (form, ks, kd), pat = case
    S = space.build(items)
    data = prescribe(S, form, ks, kd, pat)
    r = repo.solve(S, form, data)
    out.state(items, form, ks, kd, pat)
    out.edge()
    out.trace()
    for k, v in data.items():
        for i, x in enumerate(v):
            if x is not None:
                out.close("given|%s|%s" % (form, k), r[k][i], x, 0, 1e-12)
    for k in repo.NAMES:
        if k[-1] == "a" and not S.n or k[-1] == "b" and not S.m:
            continue
        out.ok(r[k].shape == ((S.n if k[-1] == "a" else S.m, 3, 3) if k in ("Sa", "Ea")
                              else (S.n if k[-1] == "a" else S.m, 3)),
               "shape|%s|%s" % (form, k), str(r[k].shape))
    R = np.linalg.inv(S.Minf()) + S.R2B(T["d"])
    F, U = gvec(r, S, True), gvec(r, S, False)
    out.outcome(F, U)
    sc = max(np.max(np.abs(F)), np.max(np.abs(R) @ np.abs(U)))
    out.close("resistance-relation|" + form, R @ U, F, 1e-8, 1e-12, scale=sc)
    if form == "ufte" and S.m and pat == 0:
        extraction(S, items, ks, data, r, out)
    if pat not in (0, 3):
        return
    # the same state prescribed in every other form
    for g, k2, d2 in forms_for(S.n, S.m):
        if (g, k2, d2) == (form, ks, kd):
            continue
        full = prescribe(S, g, k2, d2, 0)
        alt = {k: [None if x is None else r[k][i].tolist() for i, x in enumerate(v)]
               for k, v in full.items()}
        q = repo.solve(S, g, alt)
        out.edge()
        out.trace()
        for k in repo.NAMES:
            if r[k].size:
                s = max(np.max(np.abs(gvec(r, S, k[0] in "FTSD"))), 1e-12)
                out.close("represcribed|%s->%s|%s" % (form, g, k), q[k], r[k], 1e-6,
                          1e-12, scale=s)


def extraction(S, items, ks, data, r, out):
    """Extracting the force on the fixed spheres due to the dumbbells changes
    nothing else and is the part of that force linear in the dumbbell forces."""
    q = repo.solve(S, "ufte", data, extract=True)
    for k in repo.NAMES:
        if r[k].size:
            out.close("extraction|alters|" + k, q[k], r[k], 1e-7, 1e-10,
                      scale=max(1e-6, np.max(np.abs(r[k]))))
    wall = np.asarray(q["raw"][17], float)
    if ks == 0:
        out.ok(wall.size == 0, "extraction|no fixed spheres", str(wall))
        return
    d0 = dict(data)
    d0["Fb"] = [[0.0] * 3] * S.m
    d0["DFb"] = [[0.0] * 3] * S.m
    z = repo.solve(S, "ufte", d0)
    out.edge()
    out.close("extraction|value", wall, r["Fa"][:ks] - z["Fa"][:ks], 1e-6, 1e-10,
              scale=max(1e-6, np.max(np.abs(r["Fa"]))))
    out.count("extracted wall forces")
