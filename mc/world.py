"""Small worlds for whole-run checks and an independent model of a run.

A World fixes the particles, the imposed flow, the cell and the law giving
forces; Model predicts the complete record of a run of it.
"""
import math

import numpy as np

from mc import ref


def sheared(g, plane="xz"):
    if plane == "xz":
        return np.array([0, g / 2, 0.]), np.array([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0.]])
    return np.array([0, 0, -g / 2.]), np.array([[0, g / 2, 0], [g / 2, 0, 0], [0, 0, 0.]])


def rotate(v, w, dt):
    """v turned about w by |w| dt."""
    a = np.linalg.norm(w) * dt
    if a == 0:
        return np.array(v)
    k = w / np.linalg.norm(w)
    return (v * math.cos(a) + np.cross(k, v) * math.sin(a)
            + np.outer(v @ k, k) * (1 - math.cos(a)))


WALL = "force_on_wall_due_to_dumbbells"


class World:
    """flow: none | general | shear | swing ; box: None or side lengths."""

    def __init__(self, system, flow="none", box=None, real=False, force=1.0, spin=None,
                 cutoff=2.0, mu=1.0, speed=1.0):
        self.S, self.flow, self.real = system, flow, real
        self.box = None if box is None else np.asarray(box, float)
        self.force, self.spin, self.cutoff, self.mu, self.speed = force, spin, cutoff, mu, speed
        self.tab = None

    # ----------------------------------------------------------- flow
    def background(self, t):
        """U, Omega, E, centre, accumulated Omega, accumulated E."""
        z = np.zeros(3)
        if self.flow == "none":
            return z, z, np.zeros((3, 3)), z, z, np.zeros((3, 3))
        if self.flow == "general":
            c, s = math.cos(0.9 * t), math.sin(0.9 * t)
            U = np.array([0.2, -0.1, 0.15]) * (1 + 0.5 * s)
            O = np.array([0.05, 0.2 * c, -0.1])
            E = np.array([[0.1, 0.05 * c, 0.12], [0.05 * c, -0.15, 0.02],
                          [0.12, 0.02, 0.05]])
            return U, O, E, np.array([0.4, 0.1, -0.3]), z, np.zeros((3, 3))
        rate, acc = (0.7, 0.7 * t) if self.flow != "swing" else (
            0.9 * math.cos(1.3 * t), 0.9 / 1.3 * math.sin(1.3 * t))
        pl = "xy" if self.flow == "shear-xy" else "xz"
        O, E = sheared(rate, pl)
        Ot, Et = sheared(acc, pl)
        return z, O, E, z, Ot, Et

    def cell(self, t):
        _, _, _, _, Ot, Et = self.background(t)
        return ref.sheared_cell(self.box, Ot, Et)

    def periodic_flow(self):
        return self.flow in ("shear", "swing", "shear-xy")

    # --------------------------------------------------------- forcing
    def forces(self, S, t):
        n, m = S.n, S.m
        f = self.force
        Fa = np.array([[0.3 * f * math.sin(t + i), -0.2 * f, -1.0 * f - 0.1 * i] for i in range(n)]).reshape(n, 3)
        Ta = np.array([[0.5 * f, 0.2 * f * math.cos(t), 0.3 * f * (i + 1)] for i in range(n)]).reshape(n, 3)
        Fb = np.array([[0.02 * f, 0.01 * f * (i + 1), -0.05 * f] for i in range(m)]).reshape(m, 3)
        DFb = -0.05 * f * S.dd
        return Fa, Ta, Fb, DFb

    # ------------------------------------------- prescribed velocities
    def synthetic(self, S, t):
        """Smooth deterministic outputs; in a box a function of the position
        within the (sheared) cell only."""
        inv = np.linalg.inv(self.cell(t)) * 2 * math.pi if self.box is not None else \
            np.array([[0.9, 0.2, -0.3], [0.1, 0.8, 0.4], [-0.2, 0.3, 1.1]])
        q, w = S.sx @ inv, S.dx @ inv
        a = self.speed

        def field(x, k):
            if len(x) == 0:
                return np.zeros((0, 3))
            return np.stack([np.sin(x[:, (k + c) % 3] + 0.4 * k + 0.7 * t)
                             + 0.5 * np.cos(x[:, (k + c + 1) % 3] - 0.3 * k * c)
                             for c in range(3)], axis=1)
        r = {"Ua": a * field(q, 0) + np.array([0.1, 0.15, -0.6]) * a,
             "Oa": 0.8 * field(q, 1), "Ub": a * field(w, 2) + np.array([-0.2, 0.4, 0.3]) * a,
             "HalfDUb": 0.15 * field(w, 1) - 0.05 * S.dd,
             "Fa": field(q, 3), "Ta": field(q, 4), "Fb": field(w, 3), "DFb": field(w, 4),
             "wall": 0.6 * field(q, 7)}
        if self.spin is not None:
            r["Oa"] = np.tile(np.array(self.spin, float), (S.n, 1))
        v = np.concatenate([field(q, 5), field(q, 6)], axis=1)[:, :5] if S.n else np.zeros((0, 5))
        r["Sa"] = ref.u5(v)
        return r

    # ------------------------------------------------- real physics
    def solve(self, S, t, far):
        """Independent solution with the far field of configuration `far`."""
        if self.tab is None:
            self.tab = ref.Tables("d")
        Fa, Ta, Fb, DFb = self.forces(S, t)
        _, _, E, _, _, _ = self.background(t)
        Mi = far.__dict__.setdefault("_inv", None)
        if Mi is None:
            M = far.Minf(self.mu) if self.box is None else ref.Minf_periodic(
                far, ref.Lattice(self.cell(far._t)), self.mu)
            Mi = far._inv = np.linalg.inv(M)
        pairs = None if self.box is None else ref.nearest_pairs(S, self.cell(t))
        R = Mi + S.R2B(self.tab, self.cutoff, self.mu, pairs=pairs)
        n, m = S.n, S.m
        if n == 0:
            v = np.linalg.solve(R, np.concatenate([Fb.ravel(), DFb.ravel()]))
            return {"Fa": Fa, "Ta": Ta, "Sa": np.zeros((0, 3, 3)), "Fb": Fb, "DFb": DFb,
                    "Ua": np.zeros((0, 3)), "Oa": np.zeros((0, 3)),
                    "Ub": v[:3 * m].reshape(m, 3), "HalfDUb": v[3 * m:].reshape(m, 3)}
        e = np.tile(ref.c5(E), n)
        i = np.r_[0:6 * n, 11 * n:S.size]
        s = np.r_[6 * n:11 * n]
        rhs = np.concatenate([Fa.ravel(), Ta.ravel(), Fb.ravel(), DFb.ravel()]) - R[np.ix_(i, s)] @ e
        v = np.linalg.solve(R[np.ix_(i, i)], rhs)
        S5 = R[np.ix_(s, i)] @ v + R[np.ix_(s, s)] @ e
        return {"Fa": Fa, "Ta": Ta, "Sa": ref.u5(S5.reshape(n, 5)), "Fb": Fb, "DFb": DFb,
                "Ua": v[:3 * n].reshape(n, 3), "Oa": v[3 * n:6 * n].reshape(n, 3),
                "Ub": v[6 * n:6 * n + 3 * m].reshape(m, 3),
                "HalfDUb": v[6 * n + 3 * m:].reshape(m, 3)}

    # ---------------------------------------- handed to the real code
    def input_ftsuoe(self, n, posdata, frameno, timestep, last_velocities=None,
                     input_form="fte", skip_computation=False, grand_resistance_matrix_fte=0):
        from functions.simulation_tools import empty_vectors
        v = list(empty_vectors(posdata))
        S = ref.System(posdata[0], posdata[1], posdata[3], posdata[4], posdata[5])
        t = frameno * timestep
        U, O, E, c, Ot, Et = self.background(t)
        if self.real:
            Fa, Ta, Fb, DFb = self.forces(S, t)
        else:
            Fa, Ta, Fb, DFb = (np.zeros((k, 3)) for k in (S.n, S.n, S.m, S.m))
        v[0][:], v[1][:], v[4][:], v[5][:] = Fa.tolist(), Ta.tolist(), Fb.tolist(), DFb.tolist()
        v[8] = [E.tolist() for _ in range(max(1, S.n))]
        if input_form == "fts":
            v[2][:] = [np.zeros((3, 3)).tolist() for _ in range(S.n)]
        h = np.zeros(3) if self.box is None else self.box / 2
        return (*v, "mc", U, O, c, Ot, Et, -h, h, self.mu)

    def solver(self, posdata, frameno, timestep):
        S = ref.System(posdata[0], posdata[1], posdata[3], posdata[4], posdata[5])
        t = frameno * timestep
        r = self.synthetic(S, t)
        U, O, E, c, Ot, Et = self.background(t)
        Ea = np.array([E for _ in range(max(1, S.n))])
        return (r["Fa"], r["Ta"], r["Sa"], r["Fb"], r["DFb"], r["Ua"], r["Oa"], Ea, r["Ub"],
                r["HalfDUb"], np.array([0]), [0.0, 0.0, 0.0, 0.0], U, O, c, Ot, Et,
                r["wall"], np.zeros(S.size))

    def spec(self, argv, settings, **kw):
        d = {"argv": argv, "settings": settings, "system": self.S, "input": self.input_ftsuoe}
        if not self.real:
            d["solver"] = self.solver
        d.update(kw)
        return d


class Model:
    """Independent model of the time loop: schedule, scheme, wrapping, markers."""

    def __init__(self, world, scheme="euler", dt=0.1, frames=3, invert=1, stages=True,
                 planar=False, marks=None):
        self.marks = marks
        self.w, self.scheme, self.dt, self.frames = world, scheme, dt, frames
        self.invert, self.stages, self.planar = invert, stages, planar

    def velocity(self, S, frame, far):
        """Full velocities (with background flow) and forces."""
        t = frame * self.dt
        w = self.w
        r = w.solve(S, t, far) if w.real else w.synthetic(S, t)
        U, O, E, c, _, _ = w.background(t)
        v = {"Ua": r["Ua"] + U + np.cross(O, S.sx - c) + (S.sx - c) @ E.T,
             "Oa": r["Oa"] + O,
             "Ub": r["Ub"] + U + np.cross(O, S.dx - c) + (S.dx - c) @ E.T,
             "Db": 2 * r["HalfDUb"] + np.cross(O, S.dd) + S.dd @ E.T}
        if self.planar:
            for k in ("Ua", "Ub", "Db"):
                v[k][:, 1] = 0
        return v, {k: r[k] for k in ("Fa", "Fb", "DFb", "Sa", "wall") if k in r}

    def move(self, S, v, h):
        return ref.System(S.sa, S.sx + h * v["Ua"], S.da, S.dx + h * v["Ub"], S.dd + h * v["Db"])

    def wrap(self, S, t):
        """Wrapped copy and the displacements applied."""
        w = self.w
        if w.box is None:
            return S, np.zeros_like(S.sx), np.zeros_like(S.dx)
        cell = w.cell(t)
        inv = np.linalg.inv(cell)

        def f(x):
            s = x @ inv
            return x - np.floor(s + 0.5) @ cell
        sx, dx = f(S.sx), f(S.dx)
        return ref.System(S.sa, sx, S.da, dx, S.dd), sx - S.sx, dx - S.dx

    def run(self):
        """List of per-frame dictionaries (state at frame start, forces of the
        frame), ending with the final state."""
        S = self.w.S
        mark = np.stack([S.sa[:, None] * np.array([1., 0, 0]),
                         S.sa[:, None] * np.array([0, 0, 1.])], axis=1)
        if self.marks is not None:
            mark = np.array(self.marks, float)
        if self.scheme not in ("euler", "ab2", "rk4"):
            raise ValueError
        far, prev, rows = None, None, []
        for f in range(self.frames):
            regen = f % self.invert == 0
            if regen:
                far = S
                far._t = f * self.dt
            v, F = self.velocity(S, f, far)
            if self.scheme == "euler" or (self.scheme == "ab2" and prev is None):
                e = v
            elif self.scheme == "ab2":
                e = {k: 1.5 * v[k] - 0.5 * prev[k] for k in v}
            else:
                dt = self.dt
                vs, Fs, T = [v], [F], S
                for c, h in ((0.5, dt / 2), (0.5, dt / 2), (1.0, dt)):
                    T = self.move(S, vs[-1], h)
                    g = T if regen and self.stages else far
                    T._t = (f + c) * self.dt
                    a, b = self.velocity(T, f + c, g)
                    vs.append(a)
                    Fs.append(b)
                e = {k: (vs[0][k] + 2 * vs[1][k] + 2 * vs[2][k] + vs[3][k]) / 6 for k in v}
                F = {k: (Fs[0][k] + 2 * Fs[1][k] + 2 * Fs[2][k] + Fs[3][k]) / 6 for k in F}
            rows.append({"S": S, "mark": mark, "F": F, "regen": regen, "eff": e})
            S2 = self.move(S, e, self.dt)
            mark = np.array([rotate(mark[i], e["Oa"][i], self.dt)
                             for i in range(S.n)]).reshape(S.n, 2, 3)
            S, ds, dd = self.wrap(S2, (f + 1) * self.dt)
            # an image carried across a sheared boundary had a different
            # velocity in the previous frame
            _, O, E, _, _, _ = self.w.background(f * self.dt)
            prev = dict(v)
            prev["Ua"] = v["Ua"] + np.cross(O, ds) + ds @ E.T
            prev["Ub"] = v["Ub"] + np.cross(O, dd) + dd @ E.T
            if self.planar:
                for k in ("Ua", "Ub"):
                    prev[k][:, 1] = 0
        rows.append({"S": S, "mark": mark, "F": None, "regen": None})
        return rows

    def record(self, start=0, every_x=1, every_f=1, rows=None):
        """The arrays a completed run should have saved."""
        rows = rows or self.run()
        N = self.frames
        fx = [f for f in range(N) if f % every_x == 0 and f >= start] if every_x else []
        if fx and fx[-1] == N - 1:
            fx.append(N)
        ff = [f for f in range(N) if f % every_f == 0 and f >= start] if every_f else []
        r = {"centres": [np.concatenate([rows[f]["S"].sx, rows[f]["S"].dx]) for f in fx],
             "deltax": [rows[f]["S"].dd for f in fx],
             "sphere_rotations": [rows[f]["S"].sx[:, None, :] + rows[f]["mark"] for f in fx]}
        for k in ("Fa", "Fb", "DFb", "Sa", "wall"):
            if k in rows[0]["F"]:
                r[WALL if k == "wall" else k] = [rows[f]["F"][k] for f in ff]
        return {k: np.array(v) for k, v in r.items()}
