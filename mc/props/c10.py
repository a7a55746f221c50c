"""C10: trajectories follow the selected time-integration scheme."""
import itertools

import numpy as np

from mc import ref, sim
from mc.world import Model, World

ID = "C10"
BOUNDS = {
    "quick": "complete runs of run_simulation.py: 3 schemes x 5 particle mixes x "
             "free (no flow, general unsteady flow) and periodic (still, steady, "
             "oscillating shear) x planar on/off x 2 timesteps x 1, 2 and 5 "
             "(some 43) frames with a prescribed velocity field, 5-frame runs with the real "
             "solver, and 4 step-halvings per scheme for the order",
    "thorough": "adds 12-frame runs and more halvings",
}
ASSUME = ["setup 8's file loader and input_ftsuoe are the hooks through which "
          "positions, forces and flow are handed to the program",
          "in periodic runs the model treats a wrapped particle as the image it "
          "becomes (positions compared modulo nothing, i.e. exactly)"]
MIX = {
    "S": ref.System([1.0], [[0.5, 0.0, 0.2]]),
    "SS": ref.System([1.0, 1.0], [[0.5, 0, 0.2], [-2.1, 0, 3.3]]),
    "D": ref.System([], [], [0.1], [[0.3, 0, 0.4]], [[0.9, 0, 0.6]]),
    "DD": ref.System([], [], [0.1, 0.1], [[0.3, 0, 0.4], [-1.2, 0, 0.9]],
                     [[0.9, 0, 0.6], [0.4, 0, -0.8]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0, 0.2], [-2.1, 0, 3.3]], [0.1],
                      [[3.3, 0, -2.4]], [[0.9, 0, 0.6]]),
}
GEN = {
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]]),
    "DD": ref.System([], [], [0.1, 0.1], [[0.3, 0.2, 0.4], [-1.2, 0.5, 0.9]],
                     [[0.9, 0.1, 0.6], [0.4, 0.6, -0.8]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]], [0.1],
                      [[3.3, -0.5, -2.4]], [[0.9, 0.1, 0.6]]),
    "SD": ref.System([1.0], [[0.5, 0.3, 0.2]], [0.1], [[1.8, 0.5, 0.3]], [[0.3, 0.5, 0.6]]),
}
# close to the faces of the cell, so that particles cross them
EDGE = {
    "S": ref.System([1.0], [[3.8, 0, -3.7]]),
    "SS": ref.System([1.0, 1.0], [[3.8, 0, -3.7], [-2.1, 0, 3.9]]),
    "D": ref.System([], [], [0.1], [[-3.9, 0, 3.8]], [[0.9, 0, 0.6]]),
    "DD": ref.System([], [], [0.1, 0.1], [[-3.9, 0, 3.8], [1.2, 0, -3.95]],
                     [[0.9, 0, 0.6], [0.4, 0, -0.8]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0, -3.9], [-3.9, 0, 3.9]], [0.1],
                      [[3.3, 0, 3.85]], [[0.9, 0, 0.6]]),
}
SCHEMES = ("euler", "ab2", "rk4")
BOX = [8.0, 8.0, 8.0]


def setup():
    sim.preload()


def cases(tier):
    out = []
    frames = (1, 2, 5) if tier == "quick" else (1, 2, 5, 12)
    for sch, mix, pl, n in itertools.product(SCHEMES, MIX, (False, True), frames):
        for flow, box in (("none", None), ("general", None), ("none", BOX),
                          ("shear", BOX), ("swing", BOX)):
            for dt in (0.1, 0.25):
                if n < 5 and (dt == 0.25 or flow == "swing"):
                    continue
                out.append(["run", sch, mix, flow, box, pl, dt, n])
    for sch, mix in itertools.product(SCHEMES, ("SS", "SSD")):      # past printed headings
        out.append(["run", sch, mix, "general", None, False, 0.02, 43])
        out.append(["run", sch, mix, "shear", BOX, False, 0.02, 43])
    for sch, mix in itertools.product(SCHEMES, GEN):
        for flow in ("none", "general"):
            out.append(["real", sch, mix, flow, None, False, 0.2, 5])
    for sch, mix in itertools.product(SCHEMES, ("SS", "SSD", "DD")):
        for flow in ("none", "general"):
            out.append(["order", sch, mix, flow, tier])
    return out


def settings(sch, planar=False, **kw):
    return dict(timestepping_scheme=sch, fully_2d_problem=planar, **kw)


def form(S):
    return "fte" if S.n else "fts"


def execute(w, sch, planar, dt, n, out, **kw):
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, 1, dt, n, form(w.S)], settings(sch, planar, **kw)), d)
        if not sim.check_ended(out, r):
            return r, None
        rec = sim.records(d)
        if not out.ok(len(rec) == 1 and list(rec.values())[0] is not None, "record missing",
                      str(list(rec))):
            return r, None
        return r, list(rec.values())[0]
    finally:
        sim.drop(d)


def check(case, out):
    if case[0] == "order":
        return order(case, out)
    kind, sch, mix, flow, box, planar, dt, n = case
    w = World((EDGE if box else MIX if kind == "run" else GEN)[mix], flow, box,
              real=kind == "real", speed=3.0 if box else 1.0)
    r, rec = execute(w, sch, planar, dt, n, out)
    if rec is None:
        return
    rows = Model(w, sch, dt, n, planar=planar).run()
    want = Model(w, sch, dt, n, planar=planar).record(rows=rows)
    tag = "%s|%s" % (sch, "periodic" if box else "free")
    if planar:
        tag += "|planar"
        y0 = np.concatenate([w.S.sx, w.S.dx])[:, 1]
        out.ok(np.all(rec["centres"][:, :, 1] == y0) if not box else
               np.allclose(rec["centres"][:, :, 1], y0, atol=1e-12),
               "planar|" + sch, "centres leave the plane: %r" % rec["centres"][:, :, 1])
        out.ok(w.S.m == 0 or np.all(rec["deltax"][:, :, 1] == w.S.dd[:, 1]),
               "planar|extents|" + sch, "extents leave the plane")
    tol = 1e-9 if kind == "run" else 1e-7
    for k in ("centres", "deltax"):
        out.close("trajectory|%s|%s" % (tag, k), rec[k], want[k], 0, tol, scale=1)
    if box and np.any(np.abs(np.diff(rec["centres"][:, :, 2], axis=0)) > 4):
        out.count("runs crossing the top or bottom face")
    for row in rows:
        out.state(kind, mix, flow, sch, planar, row["S"].bx)
        out.edge()
    out.outcome(rec["centres"], rec["deltax"])
    out.trace()
    stages = 4 if sch == "rk4" else 1
    out.close("solver calls", len(r["trace"]), n * stages, 0, 0, msg=sch)


def order(case, out):
    """Global error shrinks at the order of the scheme."""
    _, sch, mix, flow, tier = case
    w = World(GEN[mix], flow)
    T = 0.8
    p = {"euler": 1, "ab2": 2, "rk4": 4}[sch]
    fine = Model(w, "rk4", T / 256, 256).run()[-1]["S"]
    errs = []
    ns = {"euler": (16, 32, 64, 128), "ab2": (8, 16, 32, 64), "rk4": (2, 4, 8, 16)}[sch]
    for n in ns:
        r, rec = execute(w, sch, False, T / n, n, out)
        if rec is None:
            return
        e = np.max(np.abs(rec["centres"][-1] - np.concatenate([fine.sx, fine.dx])))
        if w.S.m:
            e = max(e, np.max(np.abs(rec["deltax"][-1] - fine.dd)))
        errs.append(e)
        out.edge(n)
        out.trace()
        out.state(case, n)
    rate = [np.log2(errs[i] / errs[i + 1]) for i in range(len(errs) - 1)]
    out.outcome(np.array(errs))
    out.ok(abs(rate[-1] - p) < 0.3, "order|" + sch, "errors %r rates %r" % (errs, rate))
