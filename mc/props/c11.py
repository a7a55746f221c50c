"""C11: orientation markers stay rigidly attached and turn at the spin rate."""
import itertools

import numpy as np

from mc import ref, repo, sim
from mc.props.c10 import BOX, SCHEMES, execute
from mc.world import Model, World, rotate

ID = "C11"
BOUNDS = {
    "quick": "one-step marker update: 43 spin axes (none, lattice, nearly "
             "axis-aligned, generic) x 6 rates x 3 radii x 8 marker pairs "
             "(incl. along the axis); complete runs: 3 schemes x 9 spins x free, "
             "still and sheared periodic (spheres crossing faces) x 6 frames",
    "thorough": "adds 40-frame runs and more axes, rates and pairs",
}
ASSUME = ["markers accurate to 1e-7 radii"]
NEAR = [[1, 1e-3, 0], [1, 1e-6, 0], [1, 0, -1e-7], [-1, 1e-5, 1e-5], [1e-9, 1, 0],
        [0, 1e-4, 1], [1e-6, -1e-6, -1]]
GENER = [[0.3, -0.5, 0.9], [-0.71, 0.13, 0.22], [0.05, 0.9, -0.4], [0.577, 0.577, 0.577],
         [-0.2, -0.3, 0.1], [0.9, 0.1, 0.1], [0.1, 0.1, 0.9], [0.6, 0.8, 0], [0, 0.28, -0.96]]


def axes():
    lat = [list(d) for d in itertools.product((-1, 0, 1), repeat=3)]
    return [[0, 0, 0] if not any(a) else (np.array(a) / np.linalg.norm(a)).tolist()
            for a in lat + NEAR + GENER]


def pairs(axis):
    """Unit marker pairs: the usual ones, tilted, along and across the axis."""
    a = np.array(axis) if any(axis) else np.array([0, 0, 1.0])
    a = a / np.linalg.norm(a)
    p = np.cross(a, [0.31, -0.7, 0.64])
    p /= np.linalg.norm(p)
    q = np.cross(a, p)
    e = np.eye(3)
    return [[e[0], e[2]], [e[1], e[0]], [a, p], [p, -a], [p, q],
            [(a + p) / np.sqrt(2), q], [0.6 * a + 0.8 * q, p], [e[2], -e[1]]]


def setup():
    sim.preload()


SPINS = [None, [0, 0, 0], [0, 0, 2.0], [-1.5, 0, 0], [0, 3.0, 0], [0.7, -0.4, 1.1],
         [1.0, 1e-6, 0], [30.0, -20.0, 11.0], [0, 0, -1e-5]]
SYS = {
    "free": ref.System([1.0, 0.1, 10.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3], [17.5, 1, 1]]),
    "periodic": ref.System([1.0, 0.1], [[3.8, 3.9, -3.7], [-2.1, -1.0, 3.9]]),
}
MARKS = [[[1, 0, 0], [0, 0, 1]], [[0.6, 0.8, 0], [0, 0, -1]], [[0, 0, 1], [0, 0.6, 0.8]]]


def cases(tier):
    rates = (0.0, 1e-9, 0.3, 2.0, 11.0, -1.0) if tier == "quick" else \
        (0.0, 1e-12, 1e-9, 1e-4, 0.3, 1.0, 2.0, 11.0, 400.0, -1.0)
    out = [["step", a, list(rates)] for a in axes()]
    n = 6 if tier == "quick" else 40
    for sch, sp, w in itertools.product(SCHEMES, SPINS, ("free", "general", "still", "shear",
                                                         "swing")):
        out.append(["run", sch, sp, w, n])
    return out


def check(case, out):
    if case[0] == "step":
        return sim.aside(step, case, out)
    _, sch, spin, wk, n = case
    box = BOX if wk in ("still", "shear", "swing") else None
    S = SYS["periodic" if box else "free"]
    flow = {"free": "none", "still": "none"}.get(wk, wk)
    w = World(S, flow, box, spin=spin, speed=3.0 if box else 1.0)
    marks = np.array([[np.array(v) * S.sa[i] for v in MARKS[i]] for i in range(S.n)])
    real = w.spec

    def spec(argv, st, **kw):
        return real(argv, st, rotations=S.sx[:, None, :] + marks, **kw)
    w.spec = spec
    r, rec = execute(w, sch, False, 0.1, n, out)
    if rec is None:
        return
    m = Model(w, sch, 0.1, n, marks=marks)
    want = m.record()
    if not out.ok(rec["sphere_rotations"].shape == want["sphere_rotations"].shape, "shape"):
        return
    rel = rec["sphere_rotations"] - rec["centres"][:, :, None, :]
    tag = sch + "|" + ("periodic" if box else "free")
    a = S.sa[None, :, None]
    out.close("radius|" + tag, np.linalg.norm(rel, axis=3) / a, np.ones(rel.shape[:3]), 0, 1e-7)
    dot = np.sum(rel[:, :, 0] * rel[:, :, 1], axis=2) / S.sa ** 2
    out.close("angle|" + tag, dot, np.tile(dot[0], (len(dot), 1)), 0, 1e-7)
    out.close("turn|" + tag, rec["sphere_rotations"], want["sphere_rotations"], 0, 1e-6)
    out.trace()
    for f in range(len(rel)):
        out.state(case, rel[f])
        out.edge()
    out.outcome(rel)


def step(case, out):
    """The marker update itself, in this process."""
    _, axis, rates = case
    repo.load()
    import functions.timestepping as ts
    f = getattr(ts, "euler_timestep_rotation", None)
    g = getattr(ts, "ab2_timestep_rotation", None)
    if f is None:
        out.count("no such helper")
        return
    x0, x1 = np.array([0.3, -0.2, 0.7]), np.array([0.35, -0.1, 0.65])
    for rate, a in itertools.product(rates, (0.1, 1.0, 7.0)):
        for k, pr in enumerate(pairs(axis)):
            w = np.array(axis, float) * rate
            mk = np.array(pr) * a
            old = (x0 + mk).reshape(1, 2, 3)
            for scheme in ("euler", "ab2"):
                new = np.array(old)
                if scheme == "euler":
                    r = f(x0.reshape(1, 3), old, x1.reshape(1, 3), new, w.reshape(1, 3), 0.1)
                    eff = w
                elif g is not None:
                    wp = np.array([0.2, -0.1, 0.4])
                    eff = 1.5 * w - 0.5 * wp
                    r = g(x0.reshape(1, 3), old, x1.reshape(1, 3), new, w.reshape(1, 3),
                          wp.reshape(1, 3), 0.1)
                out.close("step|" + scheme, np.asarray(r)[0] - x1, rotate(mk, eff, 0.1),
                          0, 2e-7 * a, msg="axis %r rate %g pair %d" % (axis, rate, k))
                out.state(axis, rate, a, k, scheme)
                out.edge()
                out.outcome(np.asarray(r))
