"""C20: imposed background flows are consistent and carry free particles."""
import itertools
import math

import numpy as np

from mc import ref, repo, sim
from mc.world import World

ID = "C20"
BOUNDS = {
    "quick": "constant shear: 7 rates x 9 frames x 4 timesteps x 3 centres x 0-3 "
             "spheres; oscillatory shear: 4 amplitudes x 4 periods x 5 phases x 9 "
             "frames x both planes x transposed x reversed; each followed over a "
             "quadrature of the accumulated values; the real input functions 3 and "
             "7; complete runs of a lone sphere and dumbbell at 27 positions in "
             "every scheme, free and periodic",
    "thorough": "finer lists",
}
ASSUME = ["accumulated values are measured relative to time zero of the phase-less "
          "flow: an oscillation that starts at another phase starts displaced"]
RATES = [0.0, 1.0, -1.0, 0.3, -2.5, 10.0, 1e-3]
CENTRES = [[0.0, 0.0, 0.0], [2.25, 0.0, 2.25], [-1.0, 3.0, 0.5]]


def setup():
    sim.preload()


def cases(tier):
    fr = (0, 0.5, 1, 2, 3, 7, 10.5, 40, 1000)
    out = []
    for g, dt, c, n in itertools.product(RATES, (0.1, 0.25, 1.0, 1e-3), CENTRES, (0, 1, 3)):
        out.append(["constant", g, dt, c, n, fr])
    ph = (0.0, math.pi / 2, math.pi, -0.7, 2.0)
    for a, T, p, ax, tr, op in itertools.product(
            (1.0, 1 / 3, -2.0, 0.0), (10.0, 1.0, 0.25, 33.0), ph, (1, 2), (False, True),
            (False, True)):
        out.append(["oscillatory", a, T, p, ax, tr, op, fr])
    for n, form in itertools.product((3, 7), ("fte", "fts", "ufte")):
        out.append(["shipped", n, form])
    for sch, kind, flow in itertools.product(("euler", "ab2", "rk4"), ("S", "D"),
                                             ("none", "general", "shear", "swing")):
        out += [["carried", sch, kind, flow, [x, y, z]] for x, y, z in
                itertools.product((-2.0, 0.0, 3.0), repeat=3)
                if tier == "thorough" or flow == "general" or (x, y, z) in (
                    (0, 0, 0), (3, -2, -2), (-2, 3, 3))]
    for flow, kind in itertools.product(("shear", "swing", "shear-xy"), ("S", "D")):
        out += [["boxed", flow, kind, [x, 0.4, z]] for x, z in
                ((0.0, 0.0), (3.5, 3.8), (-3.8, -3.9))]
    return out


def check(case, out):
    if case[0] in ("carried", "boxed"):
        carried(case, out)
    else:
        sim.aside(functions, case, out)


def velocity(r, x):
    """Background velocity at x from the returned flow."""
    Ea, U, O, c = (np.asarray(v, float) for v in r[:4])
    return U + np.cross(O, x - c) + Ea[0] @ (x - c)


def functions(case, out):
    repo.load([1, 1, 0.1, 1])
    import setups.functions_inputs as fi
    if case[0] == "constant":
        _, g, dt, c, n, fr = case
        for f in fr:
            r = fi.constant_shear(g, f, dt, np.array(c), num_spheres=n)
            out.state(case[:5], f)
            out.edge()
            flow(case, r, g, g * f * dt, 1, False, False, c, n, out)
        return
    if case[0] == "oscillatory":
        _, a, T, p, ax, tr, op, fr = case
        w = 2 * math.pi / T
        for f in fr:
            r = fi.oscillatory_shear(a, T, f, 0.1, p, np.array(CENTRES[1]), num_spheres=2,
                                     unused_axis=ax, transpose_shear=tr, opposite_direction=op)
            out.state(case[:7], f)
            out.edge()
            t = f * 0.1
            flow(case, r, a * w * math.cos(w * t + p), a * math.sin(w * t + p), ax, tr, op,
                 CENTRES[1], 2, out)
        # the accumulated values are the integrals of the rates
        dt, M = T / 16, 64
        q = [fi.oscillatory_shear(a, T, i, dt / M, p, unused_axis=ax, transpose_shear=tr,
                                  opposite_direction=op) for i in range(0, 2 * M + 1)]
        h = dt / M
        for k, kt in ((0, 5), (2, 4)):
            rate = np.array([np.asarray(x[k], float)[0] if k == 0 else x[k] for x in q])
            s = (h / 3) * (rate[0] + rate[-1] + 4 * rate[1:-1:2].sum(0) + 2 * rate[2:-1:2].sum(0))
            out.close("integral|oscillatory", np.asarray(q[-1][kt], float) - np.asarray(q[0][kt], float),
                      s, 1e-7, scale=max(1e-9, abs(a)))
            out.edge()
        return
    # shipped input functions, driven through input_ftsuoe
    from setups.inputs import input_ftsuoe
    _, n, form = case
    S = ref.System([1.0, 1.0], [[0, 0, 0], [4, 1, 0]], [0.1], [[1, 5, 2]], [[0.9, 0.1, 0.6]])
    S0 = ref.System([], [], [0.1], [[1, 5, 2]], [[0.9, 0.1, 0.6]])
    for s, f, dt in itertools.product((S, S0), (0, 1, 2.5, 40), (0.1, 0.5)):
        if s is S0 and form != "fts":
            continue
        v = input_ftsuoe(n, s.posdata(), f, dt, [0, 0, 0, 0], input_form=form)
        t = f * dt
        if n == 3:
            w = 2 * math.pi / 10
            g, acc, c = w / 3 * math.cos(w * t), math.sin(w * t) / 3, [2.25, 0, 2.25]
            sp = -(S.dd - 2 * S.dd / np.linalg.norm(S.dd, axis=1)[:, None])
            out.close("shipped|springs", np.asarray(v[5], float), sp, 1e-12, scale=1)
        else:
            g, acc, c = 1.0, t, [0, 0, 0]
        flow(case, (v[8], v[13], v[14], v[15], v[16], v[17]), g, acc, 1, False, False, c, s.n, out)
        out.state(case, s.n, f, dt)
        out.edge()


def flow(case, r, rate, acc, axis, tr, op, centre, n, out):
    """One simple shear: velocity along one axis growing along another."""
    tag = case[0]
    Ea, U, O, c, Ot, Et = (np.asarray(v, float) for v in r)
    if not out.ok(Ea.shape == (max(1, n), 3, 3), "shape|" + tag, str(Ea.shape)):
        return
    out.close("centre|" + tag, c, centre, 0, 0, msg=tag)
    out.ok(not np.any(U), "uniform part|" + tag, str(U))
    out.ok(np.all(Ea == Ea[0]), "strain differs between spheres|" + tag)
    x, y = (0, 2) if axis == 1 else (0, 1)
    if tr:
        x, y = y, x
    sg = -1.0 if op else 1.0
    for name, w, e, g in (("rate", O, Ea[0], rate), ("accumulated", Ot, Et, acc)):
        L = np.array([np.cross(w, v) for v in np.eye(3)]).T + e
        want = np.zeros((3, 3))
        want[x, y] = sg * g
        d = "|reversed" if op and axis == 1 else ""
        out.close("simple shear|%s|%s%s" % (tag, name, d), L, want, 1e-12, 1e-13,
                  scale=max(abs(g), 1e-3), msg=str(case[:7]))
    out.outcome(Ea, O, Ot)
    out.trace()


def carried(case, out):
    """A lone free particle moves, turns and stretches with the flow."""
    boxed = case[0] == "boxed"
    if boxed:
        _, fl, kind, x = case
        sch, box, n = "euler", [8.0, 8.0, 8.0], 2
    else:
        _, sch, kind, fl, x = case
        box, n = None, 3
    x = np.array(x, float)
    dd = np.array([0.8, 0.5, -1.1])
    S = ref.System([1.0], [x]) if kind == "S" else ref.System([], [], [0.1], [x], [dd])
    w = World(S, fl, box, real=True, force=0.0)
    from mc.props.c10 import form
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, 1, 0.2, n, form(S)], dict(timestepping_scheme=sch)), d)
        if not sim.check_ended(out, r):
            return
    finally:
        sim.drop(d)
    out.trace()
    tol = 1e-9 if not boxed else 1e-5
    stages = 4 if sch == "rk4" else 1
    tag = "%s|%s" % ("boxed" if boxed else "free", kind)
    for i, row in enumerate(r["trace"]):
        t = row["frame"] * 0.2
        U, O, E, c, _, _ = w.background(t)
        o = row["out"]
        out.state(case, i)
        out.edge()
        # relative to the flow a free particle is at rest (dumbbells interact
        # with themselves only through their beads)
        if kind == "S":
            out.close("carried|velocity|" + tag, o[5], np.zeros((1, 3)), tol, scale=1)
            if not boxed:    # the images' stresslets turn it in a slanted cell
                out.close("carried|turning|" + tag, o[6], np.zeros((1, 3)), tol, scale=1)
        else:
            out.close("carried|velocity|" + tag, o[8], np.zeros((1, 3)), tol, scale=1)
            out.close("carried|stretching|" + tag, o[9], np.zeros((1, 3)), tol, scale=1)
    if boxed:
        return
    # and the first step of the trajectory is the flow's
    p = r["trace"][0]["pos"]
    q = r["trace"][stages]["pos"]
    if sch == "euler":
        U, O, E, c, _, _ = w.background(0.0)
        out.close("carried|step|" + tag, (q[1 if kind == "S" else 4] - p[1 if kind == "S" else 4])[0] / 0.2,
                  U + np.cross(O, x - c) + E @ (x - c), 1e-9, scale=1)
        if kind == "D":
            out.close("carried|extent step", (q[5] - p[5])[0] / 0.2,
                      np.cross(O, dd) + E @ dd, 1e-9, scale=1)
        else:
            m = (p[2] - p[1][:, None, :])[0]
            m2 = (q[2] - q[1][:, None, :])[0]
            from mc.world import rotate
            out.close("carried|turn step", m2, rotate(m, O, 0.2), 1e-9, scale=1)
    out.outcome(q[1], q[4], q[5])
