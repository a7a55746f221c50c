"""C25: stated approximation modes are exactly the stated approximations."""
import itertools
import traceback

import numpy as np

from mc import core, ref, repo, sim, space
from mc.forcing import prescribe
from mc.world import World

ID = "C25"
BOUNDS = {
    "quick": "all 16 combinations of far-field-only, drag-only, drag-only "
             "subtraction and bead-bead interactions, on every placement of 1-2 "
             "particles of 4 kinds on 7 sites and chosen placements of 3-4, 2 "
             "viscosities; 6 arrangements in 2 periodic cells; the solved "
             "velocities, and complete runs in every mode and in the two "
             "dumbbell-only input forms",
    "thorough": "every placement of 1-3 particles and a second cutoff",
}
ASSUME = ["in a periodic cell a bead's own images count as part of that bead",
          "drag-only subtraction means the two-sphere scalars less the value of "
          "each sphere alone"]
KEYS = ("use_drag_Minfinity", "use_Minfinity_only", "use_drag_R2Binfinity",
        "bead_bead_interactions")
MODES = [dict(zip(KEYS, v)) for v in itertools.product(
    (False, True), (False, True), (False, True), (True, False))]
BOX = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])
CELLS = [(BOX, [0., 0, 0], np.zeros((3, 3)).tolist()),
         (BOX, [0, 0.15, 0], [[0, 0, 0.15], [0, 0, 0], [0.15, 0, 0]])]
FORMS = ("stokes_drag_dumbbells_only", "RPY_dumbbells_only")
PER = [
    [["S", [0.3, -0.2, 0.1]]], [["D", [0.3, -0.2, 0.1]]],
    [["S", [2.5, 2.4, 2.6]], ["S", [0.6, 2.4, 1.8]]],
    [["D", [2.9, 0.0, 2.9]], ["D", [-2.8, 0.05, -2.6]]],
    [["S", [2.5, 2.4, 2.6]], ["D", [-2.6, -2.6, -2.7]]],
    [["S", [0.0, 0.0, 0.0]], ["D", [1.2, 0.0, 0.1]], ["E", [-1.0, 2.0, -1.5]]],
]
# two dumbbells whose beads are near one another, and larger mixtures
MORE = [
    [["D", [0, 0, 0]], ["D", [0.05, 0.27, 0.02]]],
    [["D", [0, 0, 0]], ["D", [0.3, 0.05, 0.1]]],
    [["S", [0, 0, 0]], ["D", [1.2, 0.1, 0]], ["D", [1.25, 0.37, 0.02]]],
    [["S", [0, 0, 0]], ["S", [2.2, 0, 0]], ["S", [0.9, 2.0, 0.3]]],
    [["S", [0, 0, 0]], ["s", [1.2, 0, 0.3]], ["D", [0, 1.3, 0]], ["E", [-2, 0, 0.5]]],
    [["S", [0, 0, 0]], ["S", [2.1, 0, 0]], ["S", [0, 2.4, 0.3]],
     ["D", [1.0, 1.4, 0.2]], ["D", [1.1, 1.7, 0.3]]],
]


def setup():
    sim.preload()


def cases(tier):
    far = [[i, mu, cut] for i in list(space.arrangements(2 if tier == "quick" else 3)) + MORE
           for mu, cut in (((1, 2), (2.5, 2)) if tier == "quick" else ((1, 2), (2.5, 2), (1, 3)))
           if mu == 1 or i in MORE or len(i) == 1]
    # many arrangements per process: a mode is chosen before the package loads
    res = [["free", m, g] for m in range(16) for g in chunks(far, 24)]
    res += [["periodic", c, i] for c in range(len(CELLS)) for i in PER]
    for m, per, sch in itertools.product(range(16), (False, True), ("euler", "rk4")):
        if not (per and sch == "rk4"):
            res.append(["run", m, per, sch])
    res += [["form", f, i, mu] for f in FORMS
            for i in ([["D", [0, 0, 0]]], MORE[0], [["D", [0, 0, 0]], ["E", [2, 1, 0]]], "mixed")
            for mu in (1, 2.5)]
    res += [["formrun", f, sch] for f in FORMS for sch in ("euler", "ab2", "rk4")]
    return res


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def mixed():
    """Two dumbbells of different sizes."""
    return ref.System([], [], [0.1, 1.0], [[0, 0, 0], [3, 1, 0]],
                      [[0.2, 0.1, 0.3], [2.0, 1.5, 0.5]])


# ------------------------------------------------------------ reference
def single(S, mu):
    """Each particle's own resistance, nothing else."""
    sa, da = np.repeat(S.sa, 3), np.repeat(S.da, 3)
    return mu * np.diag(np.concatenate([
        6 * np.pi * sa, 8 * np.pi * sa ** 3, 20 / 3 * np.pi * np.repeat(S.sa, 5) ** 3,
        12 * np.pi * da, 12 * np.pi * da]))


def table(mode):
    if not (mode["use_drag_Minfinity"] and mode["use_drag_R2Binfinity"]):
        return ref.Tables("d")
    t = ref.Tables("full")
    # value of each sphere alone: one on the diagonal scalars, none elsewhere
    raw = np.array(t.raw)
    for k in ALONE:
        raw[k, 0] -= 1
    return ref.Tables("full", raw=raw)


# order of the scalars in the tables: XA YA YB XC YC XG YG YH XM YM ZM
ALONE = (0, 1, 3, 4, 8, 9, 10)


def uncouple(S, M):
    """The mobility with every coupling between different beads removed."""
    L = S.L(0.5)
    Li = np.linalg.inv(L)
    B = Li @ M @ Li.T
    for i in range(S.n, S.nb):
        for j in range(S.n, S.nb):
            if i != j:
                B[np.ix_(S.idx(i), S.idx(j))] = 0
    return L @ B @ L.T


def expected(S, mode, mu, cut, M=None, pairs=None):
    if mode["use_drag_Minfinity"]:
        R = single(S, mu)
    else:
        M = S.Minf(mu) if M is None else M
        R = np.linalg.inv(M if mode["bead_bead_interactions"] else uncouple(S, M))
    if not mode["use_Minfinity_only"]:
        R = R + S.R2B(table(mode), cut, mu, mode["bead_bead_interactions"], pairs)
    return R


def same(out, tag, A, B, S):
    if not out.ok(A.shape == B.shape, tag + "|shape", "%s %s" % (A.shape, B.shape)):
        return
    n, m = S.n, S.m
    cuts = [0, 3 * n, 6 * n, 11 * n, 11 * n + 3 * m, 11 * n + 6 * m]
    nm = ["F", "T", "S", "Fb", "DFb"]
    big = 1e-11 * np.abs(B).max()
    for i, j in itertools.product(range(5), repeat=2):
        a = A[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]]
        if a.size:
            out.close(tag + "|" + nm[i] + nm[j], a,
                      B[cuts[i]:cuts[i + 1], cuts[j]:cuts[j + 1]], 1e-7, big + 1e-12)


def name(mode):
    return "+".join(k for k, on in (
        ("drag", mode["use_drag_Minfinity"]), ("far-only", mode["use_Minfinity_only"]),
        ("drag-tables", mode["use_drag_R2Binfinity"]),
        ("beads-off", not mode["bead_bead_interactions"])) if on) or "default"


# --------------------------------------------------------------- checks
def check(case, out):
    if case[0] in ("free", "form"):
        sim.aside({"free": free, "form": form}[case[0]], case, out)
    elif case[0] == "periodic":
        periodic(case, out)
    else:
        whole(case, out)


def enter(mode):
    st = repo.load([1, 1, 0.1, 1])
    for k, v in mode.items():
        setattr(st, k, v)
    return {k: mode[k] for k in KEYS[:2]}


def free(case, out):
    _, mi, group = case
    mode = MODES[mi]
    kw = enter(mode)
    for items, mu, cut in group:
        S = space.build(items)
        R = repo.grandR(S, mu, cut, **kw)
        out.state("free", mi, items, mu, cut)
        out.edge()
        out.outcome(R)
        W = expected(S, mode, mu, cut)
        same(out, name(mode), R, W, S)
        if len(items) == 1 and items[0][0] in "Ss":
            same(out, name(mode) + "-alone", R, single(S, mu), S)
        fm = "fts" if S.n else "duf"
        data = prescribe(S, fm, 0, 0, 0)
        r = repo.solve(S, fm, data, mu=mu, cutoff=cut, **kw)
        got = vel(S, r)
        out.trace()
        out.close(name(mode) + "-solved", W @ got, force(S, data), 1e-7)


def vel(S, r):
    e = ref.c5(r["Ea"]).ravel() if S.n else []
    return np.concatenate([np.ravel(r["Ua"]), np.ravel(r["Oa"]), e, np.ravel(r["Ub"]),
                           np.ravel(r["HalfDUb"])]).astype(float)


def force(S, data):
    v = [np.ravel(data.get("Fa", [])), np.ravel(data.get("Ta", [])),
         ref.c5(data["Sa"]).ravel() if S.n else [],
         np.ravel(data.get("Fb", [])), np.ravel(data.get("DFb", []))]
    return np.concatenate(v).astype(float)


def far_field(S, mode, c, mu):
    """The package's own periodic mobility in the given mode."""
    enter(mode)
    return repo.Minf_periodic(S, *c[:1], mu, *c[1:])


def in_mode(S, mode, c, mu, data):
    kw = enter(mode)
    box, Ot, Et = c
    R = repo.grandR_periodic(S, box, mu, 2, Ot, Et, **kw)
    r = repo.solve(S, "fts", data, mu=mu, box=box, Ot=Ot, Et=Et, **kw)
    return R, vel(S, r)


def attempt(out, fn, *a):
    """fn in a process of its own, errors of the code under test reported."""
    def run():
        try:
            return True, fn(*a)
        except BaseException as e:
            tb = e.__traceback__
            if not core.in_repo(tb):
                raise
            return False, ("exception|%s@%s" % (type(e).__name__, core.repo_site(tb)),
                           "".join(traceback.format_exception(type(e), e, tb))[-3000:])
    ok, v = sim.isolated(run)
    if not ok:
        out.fail(*v)
        return None
    return v


def periodic(case, out):
    _, ci, items = case
    c = CELLS[ci]
    S = space.build(items)
    mu = 1.5
    pairs = ref.nearest_pairs(S, ref.sheared_cell(np.subtract(c[0][1], c[0][0]), c[1], c[2]))
    M = attempt(out, far_field, S, MODES[0], c, mu)
    data = prescribe(S, "fts", 0, 0, 0)
    if M is None:
        return
    for mi, mode in enumerate(MODES):
        r = attempt(out, in_mode, S, mode, c, mu, data)
        out.state("periodic", ci, items, mi)
        out.edge()
        if r is None:
            continue
        R, v = r
        out.outcome(R)
        out.trace()
        W = expected(S, mode, mu, 2, M, pairs)
        same(out, "periodic-" + name(mode), R, W, S)
        out.close("periodic-" + name(mode) + "-solved", W @ v, force(S, data), 1e-7)


def form(case, out):
    _, f, items, mu = case
    enter(MODES[0])
    S = mixed() if items == "mixed" else space.build(items)
    data = prescribe(S, "duf", 0, 0, 0)
    r = repo.solve(S, f, data, mu=mu)
    out.state(case)
    out.edge()
    out.trace()
    out.outcome(r["Ub"])
    W = single(S, mu) if f == FORMS[0] else np.linalg.inv(S.Minf(mu))
    out.close(f + "|velocity", W @ vel(S, r), force(S, data), 1e-9)
    out.close(f + "|force", np.concatenate([r["Fb"].ravel(), r["DFb"].ravel()]),
              force(S, data), 1e-12)


def whole(case, out):
    """A complete run, every solve of which is held against the mode."""
    if case[0] == "run":
        _, mi, per, sch = case
        mode, f = MODES[mi], "fts"
        S = space.build(PER[5] if per else MORE[2])
        tag = name(mode)
    else:
        _, f, sch = case
        mode, per, S, tag = MODES[0], False, space.build(MORE[0]), f
    w = World(S, "none", [6.0, 6.0, 6.0] if per else None, real=True, mu=1.5)
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, 1, 0.05, 1 if per else 3, f],
                           dict(mode, timestepping_scheme=sch)), d)
        if not sim.check_ended(out, r):
            return
    finally:
        sim.drop(d)
    out.trace()
    for i, row in enumerate(r["trace"]):
        p, o = row["pos"], row["out"]
        T = ref.System(p[0], p[1], p[3], p[4], p[5])
        M = pairs = None
        if per:
            M = attempt(out, far_field, T, MODES[0], CELLS[0], 1.5)
            pairs = ref.nearest_pairs(T, np.diag([6.0, 6.0, 6.0]))
        W = expected(T, mode, 1.5, 2, M, pairs) if f == "fts" else \
            single(T, 1.5) if f == FORMS[0] else np.linalg.inv(T.Minf(1.5))
        out.state(case, i)
        out.edge()
        out.outcome(o[8])
        v = vel(T, dict(zip(("Ua", "Oa", "Ea", "Ub", "HalfDUb"), o[5:10])))
        Fa, Ta, Fb, DFb = w.forces(T, row["frame"] * 0.05)
        F = force(T, dict(Fa=Fa, Ta=Ta, Sa=np.zeros((T.n, 3, 3)), Fb=Fb, DFb=DFb))
        out.close("run-" + tag, W @ v, F, 1e-7)
