"""C29: guarding against dumbbells that grow too long."""
import itertools

import numpy as np

from mc import ref, sim
from mc.props.c10 import SCHEMES, form
from mc.props.c27 import window
from mc.world import WALL, Model, World

ID = "C29"
BOUNDS = {
    "quick": "complete runs: 3 schemes x 0-1 spheres and 1-3 dumbbells x which of them "
             "grows x the frame in which it passes the limit (none, each of 4) x growing "
             "on, just short or just past, coming back, too long from the start, passing "
             "in a stage only, turning round x guard on and off; saving schedules, "
             "pictures and 1-frame runs",
    "thorough": "7 frames, all saving schedules for every growth",
}
ASSUME = ["the limit is on the length of the bead-to-bead vector at the end of a frame and "
          "in the intermediate configurations of Runge-Kutta",
          "the frame in which the limit is passed is completed and saved"]
LIMIT = 5.0
DIRS = np.array([[0.6, 0.0, 0.8], [-0.48, 0.6, 0.64], [0.0, -1.0, 0.0]])
SERIES = ("centres", "deltax", "sphere_rotations", "Fa", "Fb", "DFb", "Sa", WALL)


def setup():
    sim.preload()
    import matplotlib.pyplot, matplotlib.animation                  # noqa
    import mpl_toolkits.mplot3d                                     # noqa


class Stretch(World):
    """The dumbbells named in `grow` follow given lengths; the others rest.

    rate[k][i] is the rate of growth in the half frame i."""

    def __init__(self, system, rate, dt):
        World.__init__(self, system, "none")
        self.rate, self.dt = rate, dt

    def synthetic(self, S, t):
        r = World.synthetic(self, S, t)
        i = int(round(2 * t / self.dt))
        r["HalfDUb"] = np.array([
            0.5 * DIRS[k] * (self.rate[k][i] if k in self.rate else 0.0)
            for k in range(S.m)]).reshape(S.m, 3)
        return r


def growth(kind, f, n, dt):
    """Initial length and rates at every half frame; f is the frame of interest."""
    h = 2 * (n + 2)
    z = np.zeros(h)
    if kind == "rest":
        return 1.0, z
    if kind in ("on", "short", "past"):
        end = {"on": 7.0, "short": LIMIT - 0.002, "past": LIMIT + 0.002}[kind]
        first = 1.5
        z[:2 * f + 2] = (end - first) / ((f + 1) * dt)
        return first, z
    if kind == "back":
        z[2 * f:2 * f + 2] = 4.0 / dt
        z[2 * f + 2:2 * f + 4] = -4.0 / dt
        return 2.0, z
    if kind == "stage":
        z[2 * f + 1] = 2.0 / dt
        z[2 * f] = z[2 * f + 2] = -2.0 / dt
        return 3.8, z
    if kind == "start":
        return 6.0, z
    if kind == "shrink":
        z[0:2] = -4.0 / dt
        return 6.0, z
    if kind == "turn":
        z[2 * f:2 * f + 2] = -4.5 / dt
        return 2.0, z
    raise ValueError(kind)


def system(n, m, first):
    return ref.System([1.0] * n, [[0.0, 9.0, 0.0]] * n, [0.1] * m,
                      [[8.0 * k, 0.3, 0.5] for k in range(m)],
                      [DIRS[k] * first.get(k, 1.0) for k in range(m)])


def cases(tier):
    out = []
    N = 4 if tier == "quick" else 7
    sav = [[0, 1, 1], [0, 2, 1], [2, 1, 2], [1, 3, 2], [0, 0, 1], [0, 1, 0]]
    grows = [[k, f] for k in ("on", "short", "past", "back", "stage", "turn") for f in range(N)]
    grows += [["rest", 0], ["start", 0], ["shrink", 0]]
    for sch, g in itertools.product(SCHEMES, grows):
        for n, m in ((0, 1), (1, 1), (0, 2), (1, 3)):
            for j in range(m):
                for s in sav if tier == "thorough" else sav[:1]:
                    out.append(["run", sch, n, m, [[j, *g]], N, s, False])
        if tier == "quick":
            for s in sav[1:]:
                out.append(["run", sch, 1, 2, [[1, *g]], N, s, False])
        out.append(["run", sch, 1, 1, [[0, *g]], N, [0, 1, 1], True])
        if g[1] == 0:
            out.append(["run", sch, 1, 2, [[1, *g]], 1, [0, 1, 1], False])
    # several at once, in the same frame and in different ones
    for sch, a, b in itertools.product(SCHEMES, range(N), range(N)):
        out.append(["run", sch, 0, 2, [[0, "on", a], [1, "back", b]], N, [0, 1, 1], False])
    return out


def passes(m, rows, f):
    """Whether some dumbbell is too long at the end or in a stage of frame f."""
    S, dt = rows[f]["S"], m.dt
    seen = [rows[f + 1]["S"]]
    if m.scheme == "rk4":
        T = S
        for c, g, h in ((0.0, S, dt / 2), (0.5, None, dt / 2), (0.5, None, dt)):
            v, _ = m.velocity(S if c == 0 else T, f + c, None)
            T = m.move(S, v, h)
            seen.append(T)
    L = np.array([np.linalg.norm(T.dd, axis=1) for T in seen])
    if np.min(np.abs(L - LIMIT)) < 1e-4:
        raise sim.Harness("a length too near the limit to tell: %s" % L)
    return bool((L > LIMIT).any())


def check(case, out):
    _, sch, n, m, grow, N, (st, ex, ef), shown = case
    dt = 0.1
    g = {j: growth(kind, f, N, dt) for j, kind, f in grow}
    S = system(n, m, {j: q[0] for j, q in g.items()})
    w = Stretch(S, {j: q[1] for j, q in g.items()}, dt)
    model = Model(w, sch, dt, N)
    rows = model.run()
    last = next((f for f in range(N) if passes(model, rows, f)), None)
    for guard in (True, False):
        done = N if last is None or not guard else last + 1
        d = sim.workdir()
        try:
            r = sim.run(w.spec([8, 1, dt, N, form(S)], dict(
                timestepping_scheme=sch, explosion_protection=guard, view_graphics=shown,
                start_saving_after_first_n_timesteps=st, save_positions_every_n_timesteps=ex,
                save_forces_every_n_timesteps=ef), early=window), d)
            if not sim.check_ended(out, r):
                continue
            rec = sim.records(d)
        finally:
            sim.drop(d)
        tag = "guarded" if guard else "unguarded"
        out.trace()
        for row in r["trace"]:
            out.state(case, guard, row["frame"])
            out.edge()
        if guard:
            out.count("stopped early" if done < N else "ran to the end")
        frames = [row["frame"] for row in r["trace"][::4 if sch == "rk4" else 1]]
        out.outcome(guard, frames, last)
        if not out.ok(frames == list(range(done)), tag + "|frames computed",
                      "%s instead of %d" % (frames, done)):
            continue
        if not out.ok(len(rec) == 1 and list(rec.values())[0] is not None, tag + "|record",
                      str(list(rec))):
            continue
        if done == N:
            want = model.record(st, ex, ef, rows)
        else:                   # as saved so far: no final positions are due
            want = model.record(st, ex, ef, rows)
            fx = [f for f in range(done) if ex and f % ex == 0 and f >= st]
            ff = [f for f in range(done) if ef and f % ef == 0 and f >= st]
            want = {k: v[:len(fx if k in SERIES[:3] else ff)] for k, v in want.items()}
        rec = list(rec.values())[0]
        out.outcome(*[rec.get(k, np.zeros(0)) for k in SERIES])
        for k in SERIES:
            if not out.ok(k in rec and len(rec[k]) == len(want[k]), tag + "|entries|" + k,
                          lambda: "%s instead of %s" % (
                              np.shape(rec.get(k)), want[k].shape)) or want[k].size == 0:
                continue
            out.close(tag + "|values|" + k, rec[k], want[k], 1e-9, scale=1)
