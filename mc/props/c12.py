"""C12: periodic wrapping keeps centres in the cell, moving by lattice vectors."""
import itertools

import numpy as np

from mc import ref, repo, sim
from mc.props.c10 import EDGE, SCHEMES, execute
from mc.world import World, sheared

ID = "C12"
BOUNDS = {
    "quick": "wrapping: 4 boxes x 12 shears x 2 planes x 9^3 positions on and "
             "either side of every face, edge and corner out to 3 cells; "
             "complete runs: 3 schemes x 5 mixes x 3 boxes x 4 flows x 3 speeds "
             "(up to 4 cells per step) x 6 frames",
    "thorough": "13^3 positions, 20 shears, 20-frame runs",
}
ASSUME = ["positions within 1e-9 of a face may land on either side of it",
          "start positions are as given by the user; every later frame is wrapped"]
BOXES = [[8.0, 8.0, 8.0], [6.0, 9.0, 7.0], [0.5, 0.5, 0.5], [100.0, 40.0, 80.0]]
G = [0.0, 0.1, 0.25, 0.4999, 0.5, 0.5001, 0.9, 1.0, 2.3, -0.3, -0.5, -1.7]
FR = [-2.75, -1.5, -0.6, -0.5, -0.2, 0.0, 0.3, 0.5, 1.6]


def setup():
    sim.preload()


def cases(tier):
    g = G if tier == "quick" else G + [0.7, 3.0, 10.05, -2.0, -0.49, 1e-9, 1.5, -4.6]
    out = [["wrap", b, x, p, tier] for b in BOXES for x in g for p in ("xz", "xy")]
    for sch, mix, box, flow, sp in itertools.product(
            SCHEMES, EDGE, BOXES[:2] + [[8.0, 5.0, 8.0]], ("none", "shear", "swing", "shear-xy"),
            (1.0, 12.0, 300.0)):
        out.append(["run", sch, mix, box, flow, sp, 6 if tier == "quick" else 20])
    return out


def inside(x, cell):
    s = x @ np.linalg.inv(cell)
    return s, np.all(s >= -0.5 - 1e-9) and np.all(s <= 0.5 + 1e-9)


def check(case, out):
    if case[0] == "wrap":
        return sim.aside(wrap, case, out)
    _, sch, mix, box, flow, speed, n = case
    w = World(EDGE[mix], flow, box, speed=speed)
    dt = 0.1
    r, rec = execute(w, sch, False, dt, n, out)
    if rec is None:
        return
    out.trace()
    S = w.S
    tag = "run|" + sch
    x = rec["centres"]
    moved = 0
    for f in range(1, n + 1):
        cell = w.cell(f * dt)
        s, ok = inside(x[f], cell)
        out.ok(ok, tag + "|inside", lambda: "frame %d: cell coordinates %r" % (f, s))
        out.state(case, x[f])
        out.edge()
    out.outcome(x)
    if sch == "rk4":
        return
    # unwrapped prediction from the velocities used
    prev = None
    for f in range(n):
        row = r["trace"][f]
        U, O, E, c, _, _ = w.background(f * dt)
        p = np.concatenate([row["pos"][1], row["pos"][4]])
        v = np.concatenate([row["out"][5].reshape(-1, 3), row["out"][8].reshape(-1, 3)])
        v = v + U + np.cross(O, p - c) + (p - c) @ E.T
        e = v if sch == "euler" or prev is None else 1.5 * v - 0.5 * prev
        pred = p + dt * e
        cell = w.cell((f + 1) * dt)
        k = (x[f + 1] - pred) @ np.linalg.inv(cell)
        d = (np.round(k)) @ cell
        if np.any(np.round(k)):
            moved += 1
        out.close(tag + "|lattice", k, np.round(k), 0, 1e-9, msg="frame %d" % f)
        prev = v + np.cross(O, d) + d @ E.T
        if S.m:
            h = 2 * row["out"][9] + np.cross(O, row["pos"][5]) + row["pos"][5] @ E.T
            h0 = h if sch == "euler" or f == 0 else 1.5 * h - 0.5 * hp
            out.close(tag + "|extent", rec["deltax"][f + 1], row["pos"][5] + dt * h0, 0, 1e-9)
            hp = h
    if moved:
        out.count("runs in which particles were wrapped")


def wrap(case, out):
    _, box, g, plane, tier = case
    repo.load()
    import functions.timestepping as ts
    box = np.array(box)
    Ot, Et = sheared(g, plane)
    cell = ref.sheared_cell(box, Ot, Et)
    fr = FR if tier == "quick" else FR + [-0.51, 0.49, 0.501, 2.9]
    s = np.array(list(itertools.product(fr, repeat=3)))
    x = s @ cell
    for off in ("centred", "one by one"):
        if off == "centred":
            y = np.asarray(ts.wrap_around(x.copy(), -box / 2, box / 2, Ot, Et))
        else:
            y = np.array([np.asarray(ts.wrap_around(q.reshape(1, 3).copy(), -box / 2, box / 2,
                                                    Ot, Et))[0] for q in x[::37]])
            out.close("wrap|together", y, whole[::37], 0, 1e-9 * max(box))
            continue
        whole = y
        f, ok = inside(y, cell)
        out.ok(ok, "wrap|inside", lambda: "%r" % f[np.any(np.abs(f) > 0.5 + 1e-9, axis=1)][:3])
        k = (y - x) @ np.linalg.inv(cell)
        out.close("wrap|lattice", k, np.round(k), 0, 1e-9)
        z = np.asarray(ts.wrap_around(y.copy(), -box / 2, box / 2, Ot, Et))
        face = np.any(np.abs(np.abs(f) - 0.5) < 1e-9, axis=1)
        out.close("wrap|again", z[~face], y[~face], 0, 1e-9 * max(box))
        out.ok(np.all(np.abs(k[~face & np.all(np.abs(s) < 0.4999, axis=1)]) < 1e-9),
               "wrap|inner point moved")
        if not g:
            y0 = np.asarray(ts.wrap_around(x.copy(), -box / 2, box / 2, np.zeros(3),
                                           np.zeros((3, 3))))
            out.close("wrap|unsheared", y0, y, 0, 1e-9)
        out.edge(len(x))
        for q in s:
            out.state(case, q)
        out.outcome(y)
