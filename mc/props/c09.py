"""C09: the far-field matrix is recomputed exactly when scheduled."""
import itertools

import numpy as np

from mc import ref, sim
from mc.props.c10 import SCHEMES, execute
from mc.world import Model, World

ID = "C09"
BOUNDS = {
    "quick": "complete runs with the real solver: 3 schemes x recomputation "
             "every 1, 2, 3, 4, 7 frames x each-stage on/off x 1-7 frames x 4 "
             "particle mixes, sheared periodic runs, and runs resumed after "
             "every backup; every run compared with a model of the schedule "
             "that uses independently computed matrices",
    "thorough": "up to 13 frames, recomputation every 1-7 frames",
}
ASSUME = ["forces and flow vary enough that using a far field of the wrong "
          "configuration changes the trajectory by more than 1e-5 (measured and "
          "counted in every run)"]
MIX = {
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-1.6, 0.9, 1.3]]),
    "DD": ref.System([], [], [0.1, 0.1], [[0.3, 0.2, 0.4], [0.1, 0.5, 0.9]],
                     [[0.9, 0.1, 0.6], [0.4, 0.6, -0.8]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0.3, 0.2], [-0.9, 0.9, 0.9]], [0.1],
                      [[1.5, -0.5, -0.9]], [[0.3, 0.1, 0.6]]),
    "S": ref.System([1.0], [[0.5, 0.3, 0.2]]),
}
BOX = [8.0, 8.0, 8.0]
PER = ref.System([1.0, 1.0], [[3.6, 0.3, 2.6], [-2.4, 0.9, 3.2]])


def setup():
    sim.preload()


def cases(tier):
    out = []
    inv = (1, 2, 3, 4, 7) if tier == "quick" else range(1, 8)
    nn = (1, 3, 7) if tier == "quick" else (1, 2, 3, 7, 13)
    for sch, mix, k, n in itertools.product(SCHEMES, MIX, inv, nn):
        for st in ((True, False) if sch == "rk4" else (True,)):
            if mix == "S" and n != 7:
                continue
            out.append(["free", sch, mix, k, n, st])
    out += [["periodic", sch, "", k, 3, st] for sch, k, st in
            (("euler", 1, True), ("euler", 2, True), ("ab2", 3, True), ("rk4", 2, False))]
    for sch, k in itertools.product(SCHEMES, (1, 2, 3)):
        for b in (1, 2, 3):
            out.append(["resume", sch, "SSD", k, 7, b])
    return out


def check(case, out):
    kind, sch, mix, k, n, st = case
    if kind == "resume":
        return resume(case, out)
    w = World(PER if kind == "periodic" else MIX[mix], "shear" if kind == "periodic" else "general",
              BOX if kind == "periodic" else None, real=True, force=6.0)
    dt = 0.3
    r, rec = execute(w, sch, False, dt, n, out, invert_m_every=k,
                     rk4_generate_minfinity_for_each_stage=st)
    if rec is None:
        return
    want = Model(w, sch, dt, n, invert=k, stages=st).record()
    tol = 1e-7 if kind == "free" else 2e-4
    tag = "%s|%s" % (kind, sch)
    for q in ("centres", "deltax") + (("Sa",) if w.S.n else ()):
        out.close("schedule|%s|%s" % (tag, q), rec[q], want[q], 0,
                  tol * (1 if q != "Sa" else 100), scale=1)
    out.trace()
    for i, t in enumerate(r["trace"]):
        out.state(case, t["pos"][1], t["pos"][4], t["frame"])
        out.edge()
    out.outcome(rec["centres"])
    if k > 1 and n > 1 and kind == "free" and mix != "S":
        other = Model(w, sch, dt, n, invert=1, stages=st).record()
        d = np.max(np.abs(other["centres"] - want["centres"]))
        if w.S.m:
            d = max(d, np.max(np.abs(other["deltax"] - want["deltax"])))
        if d > 1e-5:
            out.count("runs in which a stale far field is visible")


def resume(case, out):
    """Stop after a backup, start again: the first frame recomputes."""
    _, sch, mix, k, n, b = case
    w = World(MIX[mix], "general", None, real=True, force=6.0)
    st = dict(timestepping_scheme=sch, invert_m_every=k, save_to_temp_file_every_n_timesteps=b)
    d = sim.workdir()
    try:
        calls = (4 if sch == "rk4" else 1) * 5
        r = sim.run(w.spec([8, 1, 0.3, n, "fte"], st, stop_at_call=calls), d)
        if r["end"] != "crash":
            sim.check_ended(out, r)
            return
        r = sim.run(w.spec([8, 1, 0.3, n, "fte"], st), d)
        if not sim.check_ended(out, r):
            return
        t = r["trace"]
        f0 = t[0]["frame"]
        stages = 4 if sch == "rk4" else 1
        out.ok(f0 > 0, "resume|from the start", str(f0))
        frames = [t[i]["frame"] for i in range(0, len(t), stages)]
        out.ok(frames == [float(f) for f in range(int(f0), n)], "resume|frames", str(frames))
        # the velocities of every frame must belong to the scheduled far field
        far = None
        for i in range(0, len(t), stages):
            f = t[i]["frame"]
            S = ref.System(t[i]["pos"][0], t[i]["pos"][1], *t[i]["pos"][3:6])
            S._t = f * 0.3
            if f % k == 0 or f == f0:
                far = S
            v = w.solve(S, f * 0.3, far)
            out.close("resume|" + sch, t[i]["out"][5], v["Ua"], 1e-7, scale=1)
            out.close("resume|" + sch, t[i]["out"][9], v["HalfDUb"], 1e-7, scale=1)
            out.state(case, f)
            out.edge()
        out.trace()
    finally:
        sim.drop(d)
