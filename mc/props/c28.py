"""C28: the examples give the results published for them."""
import ast
import os
import shutil
import sys
import warnings

import numpy as np

from mc import core, sim
from mc.props.c24 import attempt

ID = "C28"
# Durlofsky, Brady & Bossis (1987), Fig. 1: middle of the chain outwards
CHAIN = [0.5018, 0.5029, 0.5054, 0.5102, 0.5183, 0.5321, 0.5559, 0.6170]
# Sierou & Brady (2001), Fig. 9: concentration, sedimentation velocity
CUBIC = [(0.524427481, 0.104900728), (0.449618321, 0.102376862), (0.341984733, 0.111104125),
         (0.214503817, 0.160271692), (0.124427481, 0.242719753), (0.06259542, 0.35848019),
         (0.026717557, 0.49642408)]
# Sangani & Acrivos (1982): expansion for dilute simple cubic arrays
DILUTE = [0.001526718, 0.004, 0.01, 0.02]
CASE_LIMIT = 500
BOUNDS = {
    "quick": "the chain of 15; the three falling spheres with both schemes the example "
             "names; simple cubic arrays at 7 published and 4 dilute concentrations, 2 "
             "shells of copies; examples (d)-(g) as the README runs them; the drawing of "
             "(a)-(c) by the example programs",
    "thorough": "also 3 shells of copies, compiled runs of (a)-(d), halved timesteps and "
                "other seeds of the random setups",
}
ASSUME = ["agreement with figures is to the accuracy with which they were read off: 0.002 "
          "for the chain, 0.2 radii across and 1/60 of that along for the falling spheres, "
          "2.5 % for the arrays",
          "side lengths and settings are changed where the instructions say to change them"]


def setup():
    sim.preload()
    import matplotlib.pyplot                                        # noqa


def cost(case):
    return {"f": 9, "g": 8, "e": 7, "c": 5}.get(case[0], 1)


def cases(tier):
    t = tier == "thorough"
    out = [["a", False], ["b", "rk4", 128, 100], ["b", "ab2", 16, 800], ["d", False]]
    for hf in (2, 3) if t else (2,):
        out += [["c", phi, hf, False] for phi in [p for p, _ in CUBIC] + DILUTE]
    out += [[k, s] for k in "efg" for s in ((1, 2, 3) if t and k != "g" else (1,))]
    if t:
        out += [["a", True], ["d", True], ["b", "rk4", 64, 200], ["b", "rk4", 32, 400],
                ["c", 0.124427481, 2, True], ["c", 0.524427481, 2, True]]
    return out


def perform(out, argv, settings, jit=False, seed=None, side=None):
    d = sim.workdir()

    def early(res):
        if seed is not None:
            np.random.seed(seed)
        if side is not None:
            import setups.functions_positions as fp
            real = fp.simple_cubic_8
            fp.simple_cubic_8 = lambda *a, **k: real(side)
    r = sim.run({"argv": argv, "settings": settings, "early": early, "jit": jit}, d)
    out.edge(len(r["trace"]))
    if not sim.check_ended(out, r):
        return d, None, None
    out.trace()
    rec = [(k[:-len(".npz")], v) for k, v in sim.records(d).items() if "_TEMP" not in k]
    if not out.ok(len(rec) == 1 and rec[0][1] is not None, "record missing", str(rec)[:200]):
        return d, None, None
    return d, rec[0][0], rec[0][1]


def graph(d, program, name, also):
    """The lines drawn by an example program for the named record, its folder
    standing beside the folder the run was made in (also: and beside the
    records themselves)."""
    root = d + "/tree" + "+" * also
    os.makedirs(root + "/stokesian_dynamics")
    if also:
        os.symlink(d + "/output", root + "/output")
    shutil.copytree(core.REPO + "/examples", root + "/examples")
    os.symlink(d + "/output", root + "/stokesian_dynamics/output")
    os.chdir(root + "/examples")
    sys.argv = [program]
    path = core.REPO + "/examples/" + program
    tree = ast.parse(open(path, "rb").read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and \
                getattr(node.targets[0], "id", "") == "output_filename":
            node.value = ast.copy_location(ast.Constant(name), node.value)
            break
    else:
        raise sim.Harness("no output_filename in " + program)
    import matplotlib.pyplot as plt
    shown = []

    def show(*a, **k):
        shown.append([np.array(q.get_xydata(), float) for ax in plt.gcf().axes
                      for q in ax.lines])
    plt.show = show
    warnings.simplefilter("ignore")
    exec(compile(tree, path, "exec"), {"__name__": "__main__", "__file__": path})
    return shown


def draws(out, d, program, name, *wanted):
    """The program shows one picture with each wanted line in it."""
    tag = program[:-len(".py")]
    g = attempt(out, tag, graph, d, program, name, False)
    out.state(tag, name)
    out.edge()
    if g is None and out.viol and out.viol[-1][0].startswith(
            tag + "|exception|FileNotFoundError"):
        out.viol[-1] = (tag + "|record not found", out.viol[-1][1])
        g = attempt(out, tag, graph, d, program, name, True)
        out.edge()
    if g is None:
        return
    if not out.ok(len(g) == 1, tag + "|pictures", "%d shown" % len(g)):
        return
    for what, xy in wanted:
        xy = np.asarray(xy, float)
        e = [np.abs(q - xy).max() for q in g[0] if q.shape == xy.shape]
        out.ok(e and min(e) < 1e-9, tag + "|" + what, "not drawn (nearest off by %s)"
               % (min(e) if e else None))


def check(case, out):
    d = None
    try:
        d = globals()["example_" + case[0]](case, out, *case[1:])
    finally:
        if d:
            sim.drop(d)


def example_a(case, out, jit):
    d, name, rec = perform(out, [1, 1, 1, 1, "fte"], {"timestepping_scheme": "euler"}, jit)
    if rec is None:
        return d
    X = rec["centres"]
    lam = rec["Fa"][0][:, 2] / (6 * np.pi * (X[1] - X[0])[:, 2])
    out.state(case)
    out.outcome(lam)
    if out.ok(len(lam) == 15, "chain|length", "%d spheres" % len(lam)):
        out.close("chain|symmetric", lam, lam[::-1], 1e-9)
        out.close("chain|published drag", lam[7:], CHAIN, 0, 0.002)
        k = np.arange(8)
        draws(out, d, "example-a.py", name, ("drag", np.array([k, lam[7:]]).T),
              ("published drag", np.array([k, CHAIN]).T))
    return d


def example_b(case, out, scheme, dt, frames):
    d, name, rec = perform(out, [2, 1, dt, frames, "fte"],
                           {"timestepping_scheme": scheme, "invert_m_every": 1})
    if rec is None:
        return d
    X = rec["centres"]
    paper = np.genfromtxt(core.REPO + "/examples/data/durlofsky_fig5_data.txt", delimiter=",")
    out.state(case)
    out.outcome(X[-1])
    out.close("falling|plane", X[:, :, 1], 0 * X[:, :, 1], 0, 1e-9)
    best = np.full(len(paper), np.inf)
    q = paper * [1, 1 / 60]
    for p in range(X.shape[1]):
        path = X[:, p][:, [0, 2]] * [1, 1 / 60]
        for a, b in zip(path[:-1], path[1:]):
            w = np.clip((q - a) @ (b - a) / max((b - a) @ (b - a), 1e-30), 0, 1)
            best = np.minimum(best, np.hypot(*(q - a - w[:, None] * (b - a)).T))
    # the example itself says that the paths part below about -600
    far = paper[:, 1] < (-600 if scheme == "rk4" else -1e9)
    out.count("published points", int(len(paper)))
    out.ok(best[~far].max() < 0.1, "falling|published paths",
           "off by %.3g" % best[~far].max())
    out.ok(not far.any() or best[far].max() < 0.6, "falling|published paths, sensitive part",
           "off by %.3g" % best[far].max() if far.any() else "")
    draws(out, d, "example-b.py", name, ("published paths", paper),
          *[("path %d" % p, X[:, p][:, [0, 2]]) for p in range(X.shape[1])])
    return d


def example_c(case, out, phi, hf, jit):
    side = (8 * 4 / 3 * np.pi / phi) ** (1 / 3)
    d, name, rec = perform(out, [3, 2, 1, 1, "fte"], {
        "timestepping_scheme": "euler", "how_far_to_reproduce_gridpoints": hf}, jit, side=side)
    if rec is None:
        return d
    X = rec["centres"]
    # a sphere may leave through the bottom of the cell and come in at the top
    V = X[1] - X[0]
    V -= side * np.round(V / side)
    U = -6 * np.pi * V[:, 2]
    out.state(case)
    out.outcome(U)
    out.close("cubic|all alike", V, 0 * V + V[0], 0, 2e-6)
    out.close("cubic|vertical", V[:, :2], 0 * V[:, :2], 0, 2e-6)
    paper = dict(CUBIC)
    if phi in paper:
        out.close("cubic|published velocity", U[0], paper[phi], 0.025)
    if phi < 0.03:
        want = 1 - 1.7601 * phi ** (1 / 3) + phi - 1.5593 * phi ** 2
        out.close("cubic|dilute expansion", U[0], want, 0.01)
    W = -6 * np.pi * (X[1] - X[0])[0, 2]
    draws(out, d, "example-c.py", name, ("velocity", [[phi, W]]),
          ("published velocities", np.array(CUBIC + [(0.001526718, 0.825050035), (0, 1)])))
    return d


def example_d(case, out, jit):
    d, name, rec = perform(out, [4, 3, 1, 100, "fte"], {}, jit)
    if rec is None:
        return d
    X, D = rec["centres"], rec["deltax"]
    out.state(case)
    out.outcome(X[-1])
    out.ok(X.shape == (101, 4, 3), "oscillating|record", str(X.shape))
    turn = X[:, [1, 0, 3, 2]]
    out.close("oscillating|half turn", X + turn, 0 * X + [4.5, 0, 4.5], 0, 1e-6)
    out.close("oscillating|half turn of extents", D[:, 0], D[:, 1], 0, 1e-6)
    # carried to and fro: back near the start after each period, away from it between
    step = np.linalg.norm(X[::10, :2] - X[0, :2], axis=2).max(axis=1)
    out.ok(step.max() < 0.1, "oscillating|spheres come back", "by %.3g" % step.max())
    away = np.linalg.norm(X[5::10, 0] - X[0, 0], axis=1) \
        + np.linalg.norm(X[2::10, 0] - X[0, 0], axis=1)
    out.ok(away.min() > 0.3, "oscillating|spheres move", "by %.3g" % away.min())
    size = np.linalg.norm(D, axis=2)
    out.ok(size.min() > 1.5 and size.max() < 2.5, "oscillating|springs hold",
           "%.3g to %.3g" % (size.min(), size.max()))
    return d


def example_e(case, out, seed):
    d, name, rec = perform(out, [5, 4, 1, 10, "fte"], {}, True, seed)
    if rec is None:
        return d
    X = rec["centres"]
    plain(case, out, X, (11, 41, 3))
    spread = ((X - X.mean(axis=1)[:, None]) ** 2).sum(axis=2).mean(axis=1)
    out.ok((np.diff(spread) > -1e-9).all() and spread[-1] > spread[0], "repelled|spread out",
           str(spread))
    F = np.linalg.norm(rec["Fa"], axis=2).sum(axis=1)
    out.ok(F[-1] < F[0], "repelled|forces fall", str(F))
    return d


def plain(case, out, X, shape):
    out.state(case)
    out.outcome(X[-1])
    out.ok(X.shape == shape and np.isfinite(X).all(), "record", str(X.shape))
    out.close("stays in its plane", X[:, :, 1], 0 * X[:, :, 1], 0, 1e-9)


def walls(out, X):
    v = np.where(np.arange(90) < 45, -1., 1.)[:, None] * [1, 0, 0]
    for k in range(len(X)):
        out.close("walls|velocity", X[k, :90], X[0, :90] + k * v, 0, 1e-9)


def example_f(case, out, seed):
    d, name, rec = perform(out, [6, 5, 1, 10, "ufte"], {}, True, seed)
    if rec is None:
        return d
    X = rec["centres"]
    plain(case, out, X, (11, 290, 3))
    walls(out, X)
    # dumbbells are dragged along by the nearer wall
    v = X[1, 90:, 0] - X[0, 90:, 0]
    z = X[0, 90:, 2]
    out.ok(np.mean(v[z < 3.5]) < -0.1 and np.mean(v[z > 7.5]) > 0.1, "walls|drag dumbbells",
           "%.3g %.3g" % (np.mean(v[z < 3.5]), np.mean(v[z > 7.5])))
    return d


def example_g(case, out, seed):
    d, name, rec = perform(out, [7, 6, 1, 10, "ufte"], {}, True, seed)
    if rec is None:
        return d
    X = rec["centres"]
    plain(case, out, X, (11, 99, 3))
    walls(out, X)
    # rows are pushed along by the force, the top row helped by its wall
    v = (X[1, 90:] - X[0, 90:]).reshape(3, 3, 3)[:, :, 0].mean(axis=0)
    out.ok(0 < v[0] < v[2], "walls|shear the array", str(v))
    out.close("walls|force", rec["Fa"][0][90:], np.tile([10., 0, 0], (9, 1)), 1e-9)
    return d
