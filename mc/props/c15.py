"""C15: an interrupted run resumes to the same result."""
import itertools
import os
import shutil

import numpy as np

from mc import ref, sim
from mc.props.c10 import SCHEMES, form
from mc.props.c16 import SERIES
from mc.world import Model, World

ID = "C15"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "real runs stopped before, inside (file truncated to nothing, 30%, "
             "90%) and after every file operation and before every solver call, "
             "then started again: 3 schemes x 3 particle mixes, backup "
             "interval 1-3, saving start 0-2 and intervals 1-3; all pairs of "
             "successive interruptions on a small run; periodic and real-solver "
             "runs; foreign backups differing in each parameter",
    "thorough": "longer runs, all combinations, triples of interruptions",
}
ASSUME = ["an interruption leaves a file either complete or cut short",
          "with far-field reuse the backup interval is a multiple of the "
          "recomputation interval (the matrix itself is not saved)"]
MIX = {
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]]),
    "D": ref.System([], [], [0.1], [[0.3, 0.2, 0.4]], [[0.9, 0.1, 0.6]]),
    "SSD": ref.System([1.0, 0.1], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]], [0.1],
                      [[3.3, -0.5, -2.4]], [[0.9, 0.1, 0.6]]),
}
EDGE = ref.System([1.0, 0.1], [[0.5, 0, -3.9], [-3.9, 0, 3.9]], [0.1],
                  [[3.3, 0, 3.85]], [[0.9, 0, 0.6]])
BOX = [8.0, 8.0, 8.0]
TORN = (0.0, 0.3, 0.9)


def setup():
    sim.preload()


def cases(tier):
    out = []
    # world, scheme, frames, backup every, start, positions every, forces every
    for sch, mix in itertools.product(SCHEMES, MIX):
        out.append(["once", "synthetic", mix, sch, 5, 2, 0, 1, 1])
    for t, st, ex, ef in itertools.product((1, 2, 3), (0, 1, 2), (1, 2, 3), (1, 2)):
        if tier == "thorough" or (t + st + ex + ef) % 2 == 0:
            out.append(["once", "synthetic", "SSD", "euler", 6, t, st, ex, ef])
    for sch in SCHEMES:
        out.append(["once", "periodic", "edge", sch, 5, 2, 0, 1, 1])
        out.append(["once", "real", "SSD", sch, 5, 2, 0, 1, 1])
    out.append(["twice", "synthetic", "SSD", "ab2", 4, 1, 0, 1, 1])
    if tier == "thorough":
        for sch, mix, t in itertools.product(SCHEMES, MIX, (1, 2, 3)):
            out.append(["twice", "synthetic", mix, sch, 5, t, 0, 1, 1])
        for sch, mix, t in itertools.product(SCHEMES, MIX, (1, 3)):
            out.append(["once", "synthetic", mix, sch, 9, t, 0, 1, 1])
    # split the work: each first interruption point is its own case
    res = []
    for c in out:
        for k in points(c):
            res.append(c + [k])
    for v in foreign():
        res.append(["foreign", v])
    return res


def points(c):
    _, _, _, sch, n, t, st, ex, ef = c
    backups = len([f for f in range(n) if f % t == 0 and f >= st])
    pts = [["op", i, m, 0] for i in range(backups + 2) for m in ("before", "after")]
    pts += [["op", i, "torn", q] for i in range(backups + 1) for q in TORN]
    stages = 4 if sch == "rk4" else 1
    pts += [["call", i] for i in range(0, n * stages)
            if stages == 1 or i % 4 in (0, 2)]
    return pts


def foreign():
    base = [8, 1, 0.1, 4]
    v = [["setup", [1, 1, 0.1, 4]], ["input", [8, 2, 0.1, 4]], ["timestep", [8, 1, 0.2, 4]],
         ["timestep", [8, 1, 1e-05, 4]], ["frames", [8, 1, 0.1, 5]], ["frames", [8, 1, 0.1, 40]],
         ["setup", [-8, 1, 0.1, 4]], ["input", [8, -1, 0.1, 4]], ["setup", [88, 1, 0.1, 4]],
         ["input", [8, 11, 0.1, 4]], ["timestep", [8, 1, 1.1, 4]]]
    return [[k, base, o] for k, o in v] + [["name", base, s] for s in (
        "notes_TEMP.npz", "a-b-c-d-e_TEMP.npz", "old-run_TEMP.npz")]


def world(kind, mix):
    if kind == "periodic":
        return World(EDGE, "shear", BOX, speed=3.0)
    return World(MIX[mix], "general", real=kind == "real")


def settings(c):
    _, _, _, sch, n, t, st, ex, ef = c[:9]
    return dict(timestepping_scheme=sch, start_saving_after_first_n_timesteps=st,
                save_positions_every_n_timesteps=ex, save_forces_every_n_timesteps=ef,
                save_forces_and_positions_to_temp_file_as_well=True,
                save_to_temp_file_every_n_timesteps=t)


def interruption(p):
    if p[0] == "call":
        return {"stop_at_call": p[1]}
    return {"crash": [p[1], p[2], p[3]]}


def check(case, out):
    if case[0] == "foreign":
        return check_foreign(case, out)
    kind, wk, mix, sch, n, t, st, ex, ef, p = case
    w = world(wk, mix)
    m = Model(w, sch, 0.1, n)
    rows = m.run()
    want = m.record(st, ex, ef, rows)
    seconds = [None] if kind == "once" else points(case[:9])
    d0 = sim.workdir()
    try:
        argv = [8, 1, 0.1, n, form(w.S)]
        r = sim.run(w.spec(argv, settings(case), stamp="2601010000", **interruption(p)), d0)
        if r["end"] == "error":
            sim.check_ended(out, r)
            return
        out.state(case, "first")
        if r["end"] == "complete":
            out.count("interruption point past the end")
            return
        frames = [x["frame"] for x in r["trace"]]
        # frame of the last backup written in full
        full = [o for o in r["ops"][:-1] + (r["ops"][-1:] if p[-2:-1] != ["before"] else [])
                if o[0].startswith("save") and "TEMP" in o[1]]
        sched = [f for f in range(n) if f % t == 0 and f >= st]
        reached = sched[min(len(full), len(sched)) - 1] if full else 0
        out.edge()
        for q in seconds:
            d = sim.workdir()
            try:
                shutil.rmtree(d)
                shutil.copytree(d0, d)
                if q is not None:
                    r2 = sim.run(w.spec(argv, settings(case), stamp="2601010001",
                                        **interruption(q)), d)
                    if r2["end"] == "error":
                        sim.check_ended(out, r2)
                        continue
                    out.state(case, q)
                    out.edge()
                before = sim.records(d)
                r3 = sim.run(w.spec(argv, settings(case), stamp="2601010002"), d)
                if not sim.check_ended(out, r3, "restart"):
                    continue
                out.edge()
                out.trace()
                out.state(case, q, "final")
                final(w, case, rows, want, before, reached, r3, sim.records(d), out)
            finally:
                sim.drop(d)
        out.outcome(np.array(frames))
    finally:
        sim.drop(d0)


def same(rec, want):
    if rec is None:
        return False
    for k in (q for q in SERIES if q in want):
        a, b = rec.get(k), want[k]
        if a is None or len(a) != len(b) or a.size != b.size:
            return False
        if b.size and not np.allclose(a, b, rtol=0, atol=1e-7):
            return False
    return True


def final(w, case, rows, want, before, reached, r, recs, out):
    kind, _, _, sch, n, t, st, ex, ef, _ = case
    stages = 4 if sch == "rk4" else 1
    f0 = r["trace"][0]["frame"] if r["trace"] else n
    # every restarted frame starts from the configuration of that frame
    for i in range(0, len(r["trace"]), stages):
        f = int(r["trace"][i]["frame"])
        p = r["trace"][i]["pos"]
        S = rows[f]["S"]
        out.close("restart|%s|trajectory" % sch, np.concatenate([p[1], p[4]]),
                  np.concatenate([S.sx, S.dx]), 1e-7, scale=1, msg="frame %d" % f)
        out.close("restart|%s|extents" % sch, p[5], S.dd, 1e-7, scale=1, msg="frame %d" % f)
        if S.n:
            out.close("restart|%s|orientation" % sch, p[2], S.sx[:, None, :] + rows[f]["mark"],
                      1e-7, scale=1, msg="frame %d" % f)
    usable = [k for k, v in before.items() if "TEMP" in k and v is not None]
    if usable:
        if kind == "once":
            out.ok(f0 >= reached, "restart|completed work lost",
                   "from frame %s although frame %s was backed up" % (f0, reached))
        out.count("restarts from a backup")
    else:
        out.ok(f0 == 0, "restart|no backup but late start", str(f0))
        out.count("restarts from the beginning")
    temps = [k for k, v in recs.items() if "TEMP" in k and v is not None]
    out.ok(not temps, "backup left behind", str(temps))
    good = {k: v for k, v in recs.items() if v is not None and "TEMP" not in k}
    if not out.ok(len(good) >= 1, "record missing", str(list(recs))):
        return
    for k, v in good.items():
        if not same(v, want):
            for s in (q for q in SERIES if q in want):
                a, b = v.get(s), want[s]
                if a is None or len(a) != len(b):
                    out.fail("record|entries|" + s, "%s: %s entries instead of %d" % (
                        k, None if a is None else len(a), len(b)))
                elif b.size:
                    out.close("record|values|" + s, a, b, 1e-7, scale=1)
    # a run stopped after its record was complete is simply run once more
    done = [k for k, v in before.items() if v is not None and "TEMP" not in k]
    new = set(good) - set(done)
    if usable:
        out.ok(new <= {u.replace("_TEMP", "") for u in usable}, "more than one record",
               str(list(recs)))
    out.ok(len(new) <= 1, "more than one record", str(list(recs)))


def check_foreign(case, out):
    """A backup of another run is neither used nor touched."""
    _, (what, mine, other) = case
    w = World(MIX["SSD"], "general")
    st = dict(save_to_temp_file_every_n_timesteps=2)
    d = sim.workdir()
    try:
        # a genuine backup, written by an interrupted run with my parameters
        r = sim.run(w.spec(mine + ["fte"], st, stop_at_call=3), d)
        if not out.ok(r["end"] == "crash", "interrupted run", r["end"]):
            return
        temp = [f for f in os.listdir(d + "/output") if "TEMP" in f]
        if not out.ok(len(temp) == 1, "no backup", str(temp)):
            return
        if what == "name":
            new = other
        else:
            new = "2512312359-s%s-i%s-%sfr-t%s-M1-mc_TEMP.npz" % (
                other[0], other[1], other[3], str(other[2]).replace(".", "p"))
        os.rename(d + "/output/" + temp[0], d + "/output/" + new)
        blob = open(d + "/output/" + new, "rb").read()
        r = sim.run(w.spec(mine + ["fte"], st, stamp="2601010002"), d)
        if not sim.check_ended(out, r, "foreign backup"):
            return
        recs = sim.records(d)
        left = os.path.exists(d + "/output/" + new) and \
            open(d + "/output/" + new, "rb").read() == blob
    finally:
        sim.drop(d)
    out.state(case)
    out.edge()
    out.trace()
    out.ok(r["trace"][0]["frame"] == 0, "foreign backup used|" + what, new)
    out.ok(left, "foreign backup changed|" + what, new)
    want = Model(w, "rk4", mine[2], mine[3]).record()
    mineout = [v for k, v in recs.items() if "TEMP" not in k]
    out.ok(len(mineout) == 1, "foreign|record", str(list(recs)))
    out.outcome(np.array([float(x) for x in other]) if what != "name" else np.zeros(1))
    sch = r["settings_before"].get("timestepping_scheme", "rk4")
    want = Model(w, sch, mine[2], mine[3]).record()
    out.ok(len(mineout) == 1 and same(mineout[0], want), "foreign|record differs", new)
