"""C16: the saved record holds exactly the frames asked for."""
import itertools
import os
import re

import numpy as np

from mc import ref, sim
from mc.props.c10 import SCHEMES, form
from mc.world import WALL, Model, World

ID = "C16"
BOUNDS = {
    "quick": "complete runs: saving start 0-4 x position interval 0-3 x force "
             "interval 0-3 x 1, 4 and 6 frames x backup interval 1, 3 or off x 3 "
             "particle mixes; all schemes, setup/input numbers and timesteps for "
             "the name; forces on 1-2 fixed spheres due to 1-2 dumbbells extracted in "
             "all schemes and saving schedules",
    "thorough": "8 frames, intervals 0-5, start 0-9, all schemes",
}
ASSUME = ["the final positions are due when the last frame is a saving frame",
          "an interval of zero means that series is not saved"]
MIX = {
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]]),
    "D": ref.System([], [], [0.1], [[0.3, 0.2, 0.4]], [[0.9, 0.1, 0.6]]),
    "SSDD": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-1.7, 0.6, 0.9]], [0.1, 0.1],
                       [[1.9, -0.5, 0.4], [-0.4, 1.6, 0.7]],
                       [[0.3, 0.5, 0.6], [0.4, 0.1, -0.5]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]], [0.1],
                      [[3.3, -0.5, -2.4]], [[0.9, 0.1, 0.6]]),
}
SAVED = ("SS", "D", "SSD")
SERIES = {"centres": 1, "deltax": 1, "sphere_rotations": 1, "Fa": 2, "Fb": 2, "DFb": 2, "Sa": 2,
          WALL: 2}


def setup():
    sim.preload()


def cases(tier):
    out = []
    if tier == "quick":
        for st, ex, ef, n, (i, mix) in itertools.product(
                range(5), range(4), range(4), (1, 4, 6), enumerate(SAVED)):
            # backup intervals rotate over the grid, all of them for a subset
            temps = (1, 3, 0) if st in (0, 2) and mix == "SSD" and n == 6 else \
                ((1, 3, 0)[(st + ex + ef + n + i) % 3],)
            for t in temps:
                if n == 1 and st > 1 and ex != 1:
                    continue
                out.append(["run", "euler", mix, n, st, ex, ef, t])
        for sch, mix in itertools.product(SCHEMES, SAVED):
            out += [["run", sch, mix, 5, st, 2, 1, 2] for st in (0, 2)]
    else:
        for st, ex, ef, n, mix, t in itertools.product(
                range(0, 10, 1), range(6), range(6), (1, 2, 8), SAVED, (0, 1, 3)):
            if n < 8 and (st > 2 or t == 3):
                continue
            if n == 8 and mix != "SSD" and t != 1:
                continue
            out.append(["run", "euler", mix, n, st, ex, ef, t])
        for sch, mix, st, ex, ef in itertools.product(
                SCHEMES, SAVED, (0, 1, 3), (1, 2), (1, 2, 3)):
            out.append(["run", sch, mix, 7, st, ex, ef, 2])
    for dt, n, inv, i in itertools.product((0.1, 0.25, 1.0, 0.00001, 2), (1, 12), (1, 4), (1, 3, -2)):
        out.append(["name", dt, n, inv, i])
    for sch, (mix, k), st, ef, flow in itertools.product(
            SCHEMES, (("SSD", 1), ("SSD", 2), ("SSDD", 1), ("SSDD", 2)), (0, 1), (1, 2),
            ("none", "general")):
        out.append(["wall", sch, mix, k, 3, st, ef, flow])
    return out


class Fixed(World):
    """The first `fixed` spheres have prescribed velocities."""
    fixed = 1

    def input_ftsuoe(self, *a, **k):
        v = World.input_ftsuoe(self, *a, **k)
        for i in range(self.fixed):
            v[0][i] = ["pippa"] * 3
            v[6][i] = [0.2, -0.1 * i, 0.3]
        return v


def check(case, out):
    if case[0] == "name":
        return name(case, out)
    if case[0] == "wall":
        return wall(case, out)
    _, sch, mix, n, st, ex, ef, t = case
    w = World(MIX[mix], "general")
    dt = 0.1
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, 1, dt, n, form(w.S)], dict(
            timestepping_scheme=sch, start_saving_after_first_n_timesteps=st,
            save_positions_every_n_timesteps=ex, save_forces_every_n_timesteps=ef,
            save_forces_and_positions_to_temp_file_as_well=t > 0,
            save_to_temp_file_every_n_timesteps=max(t, 1))), d)
        if not sim.check_ended(out, r):
            return
        rec = sim.records(d)
    finally:
        sim.drop(d)
    out.trace()
    for row in r["trace"]:
        out.state(case, row["frame"])
        out.edge()
    m = Model(w, sch, dt, n)
    rows = m.run()
    stages = 4 if sch == "rk4" else 1
    for f in range(n):
        p = r["trace"][f * stages]["pos"] if f * stages < len(r["trace"]) else None
        if not out.ok(p is not None, "trajectory|frames", "stopped at frame %d" % f):
            return
        out.close("trajectory|saving alters it", np.concatenate([p[1], p[4]]),
                  np.concatenate([rows[f]["S"].sx, rows[f]["S"].dx]), 1e-9, scale=1)
    if ex == 0 and ef == 0:
        out.ok(rec == {}, "record|nothing to save", str(list(rec)))
        return
    out.ok(not any("TEMP" in k for k in rec), "backup left behind", str(list(rec)))
    if not out.ok(len(rec) == 1 and list(rec.values())[0] is not None, "record|missing",
                  str(list(rec))):
        return
    rec = list(rec.values())[0]
    want = m.record(st, ex, ef, rows)
    out.outcome(*[rec.get(k, np.zeros(0)) for k in sorted(want)])
    for k, which in SERIES.items():
        if not out.ok(k in rec, "series missing|" + k, str(list(rec))):
            continue
        if not out.ok(len(rec[k]) == len(want[k]), "number of entries|" + k,
                      "%d instead of %d" % (len(rec[k]), len(want[k]))):
            continue
        if len(want[k]) == 0:
            out.count("empty series")
            continue
        if want[k].size == 0:
            out.ok(rec[k].size == 0, "entries of absent particles|" + k, str(rec[k].shape))
            continue
        out.close("entries|" + k, rec[k], want[k], 1e-9, scale=1)
        out.count("series entries compared", len(rec[k]))


def name(case, out):
    """The file name encodes the parameters and reads back exactly."""
    _, dt, n, inv, i = case
    w = World(MIX["SS"], "none")
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, i, dt, n, "fte"], dict(invert_m_every=inv), stamp="2607051234"), d)
        if not sim.check_ended(out, r):
            return
        files = os.listdir(os.path.join(d, "output"))
    finally:
        sim.drop(d)
    out.state(case)
    out.edge()
    out.trace()
    if not out.ok(len(files) == 1, "record|missing", str(files)):
        return
    m = re.match(r"2607051234-s(-?\d+)-i(-?\d+)-(\d+)fr-t(\d+(?:p\d+)?(?:e-?\d+)?)-M(\d+)-mc\.npz$",
                 files[0])
    if not out.ok(m is not None, "name|form", files[0]):
        return
    got = [int(m[1]), int(m[2]), int(m[3]), float(m[4].replace("p", ".")), int(m[5])]
    out.outcome(np.array(got))
    out.ok(got == [8, i, n, float(dt), inv], "name|parameters", files[0])


def share(S, tab, k, Fb, DFb):
    """Force on the first k spheres, held still, when only the dumbbells' forces act."""
    R = np.linalg.inv(S.Minf()) + S.R2B(tab)
    n = S.n
    held, free = np.r_[:3 * k], np.r_[3 * k:6 * n, 11 * n:S.size]
    f = np.concatenate([np.zeros(6 * n - 3 * k), Fb.ravel(), DFb.ravel()])
    return (R[np.ix_(held, free)] @ np.linalg.solve(R[np.ix_(free, free)], f)).reshape(k, 3)


def wall(case, out):
    """The series of forces on fixed spheres due to the dumbbells."""
    _, sch, mix, k, n, st, ef, flow = case
    w = Fixed(MIX[mix], flow, real=True, force=2.0)
    w.fixed = k
    tab = ref.Tables("d")
    recs = []
    for on in (True, False):
        d = sim.workdir()
        try:
            r = sim.run(w.spec([8, 1, 0.05, n, "ufte", on], dict(
                timestepping_scheme=sch, start_saving_after_first_n_timesteps=st,
                save_forces_every_n_timesteps=ef)), d)
            if not sim.check_ended(out, r):
                return
            rec = [v for v in sim.records(d).values() if v is not None]
        finally:
            sim.drop(d)
        if not out.ok(len(rec) == 1, "record|missing", str(len(rec))):
            return
        recs.append(rec[0])
        if on:
            rows = r["trace"]
    out.trace()
    stages, weight = (4, np.array([1, 2, 2, 1]) / 6) if sch == "rk4" else (1, [1.0])
    want = []
    for f in range(n):
        if f < st or f % ef:
            continue
        tot = 0.0
        for row, c in zip(rows[f * stages:(f + 1) * stages], weight):
            p = row["pos"]
            S = ref.System(p[0], p[1], p[3], p[4], p[5])
            _, _, Fb, DFb = w.forces(S, row["frame"] * row["dt"])
            tot = tot + c * share(S, tab, k, Fb, DFb)
            out.state(case, row["frame"])
            out.edge()
        want.append(tot)
    out.outcome(recs[0].get(WALL, np.zeros(0)))
    if out.ok(WALL in recs[0], "series missing|" + WALL, str(list(recs[0]))):
        out.close("wall force", recs[0][WALL], np.array(want), 1e-6, 1e-10)
    for q in SERIES:
        if q != WALL and out.ok(q in recs[0] and q in recs[1], "series missing|" + q, ""):
            out.close("extraction alters|" + q, recs[0][q], recs[1][q], 1e-7, 1e-10)
    out.count("extracted wall forces", len(want))
