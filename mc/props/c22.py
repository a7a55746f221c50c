"""C22: compiled and interpreted execution give the same results."""
import itertools
import multiprocessing

import numpy as np

from mc import ref, sim, space
from mc.world import World

ID = "C22"
BOUNDS = {
    "quick": "complete runs compiled and interpreted, compared output by output: shipped "
             "setups 1-4 x inputs 1-5,7 x forms; 8 mixes of spheres (float and integer sizes) "
             "and dumbbells x free, periodic and sheared periodic x schemes x forms; planar "
             "runs; arrangements of up to 2 particles on the lattice, pairs of every "
             "tabulated size ratio, separations from touching to beyond the cutoff; every choice "
             "of bead-bead interactions, drag-only far field and near-field table by a run whose "
             "compiled code is left over from runs with other choices",
    "thorough": "adds shipped setups 5-7 and three-particle arrangements",
}
ASSUME = ["both modes are selected as settings.py does, through numba's own switch"]
CHUNK = 1
MIX = {
    "S": ref.System([1.0], [[0.5, 0.3, 0.2]]),
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-1.1, 1.2, 1.3]]),
    "Ss": ref.System([1.0, 0.1], [[0.5, 0.3, 0.2], [-0.5, 0.8, 0.6]]),
    "D": ref.System([], [], [0.1], [[0.3, 0.2, 0.4]], [[0.9, 0.1, 0.6]]),
    "DD": ref.System([], [], [0.1, 0.1], [[0.3, 0.2, 0.4], [-1.2, 0.5, 0.9]],
                     [[0.9, 0.1, 0.6], [0.4, 0.6, -0.8]]),
    "SD": ref.System([1.0], [[0.5, 0.3, 0.2]], [0.1], [[1.8, 0.5, 0.3]], [[0.3, 0.5, 0.6]]),
    "SSD": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]], [0.1],
                      [[3.3, -0.5, -2.4]], [[0.9, 0.1, 0.6]]),
    "SSSDD": ref.System([1.0, 1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3], [2.5, 0.4, 0.1]],
                        [0.1, 0.1], [[3.3, -0.5, -2.4], [0.2, 2.5, 0.3]],
                        [[0.9, 0.1, 0.6], [0.4, 0.6, -0.8]]),
}
WARM = [["world", "SSD", "none", False, "euler", "fte", 1], ["world", "SD", "shear", True, "ab2", "fte", 1],
        ["shipped", 1, 1, "fte"], ["shipped", 3, 2, "fte"], ["shipped", 4, 3, "fte"],
        ["world", "DD", "swing", True, "rk4", "fts", 1], ["ints", "SSD", False], ["ints", "SS", True]]


def setup():
    sim.preload()
    # compile once, into this run's own cache
    with multiprocessing.get_context("fork").Pool(8) as p:
        p.map(warm, WARM, 1)


def warm(case):
    try:
        execute(case, True)
    except Exception:
        pass


def cases(tier):
    out = []
    sets = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7)
    for s, i, f in itertools.product(sets, (1, 2, 3, 4, 5, 7), ("fte", "fts", "ufte")):
        if i == 2 and (s != 3 or f == "ufte"):
            continue      # only setup 3 is meant for, and fits, the periodic box
        if s >= 5 and f != "fte":
            continue
        out.append(["shipped", s, i, f])
    if tier == "thorough":
        out.append(["shipped", 7, 6, "ufte"])
    for mix, flow, sch in itertools.product(MIX, ("none", "general"), ("euler", "ab2", "rk4")):
        forms = ("fte", "fts") if sch == "euler" else ("fte",)
        for f in forms:
            if MIX[mix].n == 0:
                f = "fts"
            c = ["world", mix, flow, False, sch, f, 2]
            if c not in out:
                out.append(c)
    for mix, flow, sch in itertools.product(MIX, ("none", "shear", "swing", "shear-xy"),
                                            ("euler", "rk4")):
        if sch == "rk4" and (MIX[mix].n > 1 or flow == "none") and tier == "quick":
            continue
        if mix == "SSSDD" and tier == "quick" and flow != "shear":
            continue
        f = "fts" if MIX[mix].n == 0 else "fte"
        out.append(["world", mix, flow, True, sch, f, 2 if sch == "euler" else 1])
    out += [["ints", m, b] for m in ("SS", "SSD", "SD") for b in (False, True)]
    # compiled code is kept from one run to the next; its settings must not be
    out += [["changed", m, b, list(st)] for m in ("SS", "Ss", "SD", "DD", "SSSDD")
            for b in (False, True) for st in itertools.product((True, False), repeat=3)]
    out += [["planar", m] for m in ("SS", "D", "SSD")]
    arr = space.arrangements(2 if tier == "quick" else 3)
    for i in range(0, len(arr), 40):
        out.append(["arranged", i, min(40, len(arr) - i), 2 if tier == "quick" else 3])
    n = len(space.pair_grid())
    out += [["pairs", i, min(60, n - i)] for i in range(0, n, 60)]
    return out


def execute(case, jit):
    if case[0] in ("arranged", "pairs"):
        return sim.isolated(matrices, case, jit)
    early = None
    if case[0] == "shipped":
        _, s, i, f = case

        def early(res):
            np.random.seed(5)
        spec = {"argv": [s, i, 0.1, 1 if i == 2 or s > 4 else 2, f], "settings": {}, "early": early}
    else:
        flow, periodic, sch, form, n, st = "none", False, "euler", "fte", 1, {}
        if case[0] == "world":
            _, mix, flow, periodic, sch, form, n = case
            S = MIX[mix]
        elif case[0] == "ints":
            # whole-number sizes and positions kept as integers
            S = MIX[case[1]]
            S = ref.System(S.sa, np.round(S.sx * 1.4) * 2, S.da, np.round(S.dx) * 3 + [0, 7, 0],
                           np.round(S.dd))
            periodic = case[2]
            pd = S.posdata()
            ints = tuple(np.round(x).astype(int) if k in (0, 1, 2) else x for k, x in enumerate(pd))
            if len(case) < 4:
                S = _Given(S, ints)
        elif case[0] == "changed":
            _, mix, periodic, (bb, drag, table) = case
            S = MIX[mix]
            form = "fts" if S.n == 0 else "fte"
            st = {"bead_bead_interactions": bb, "use_drag_Minfinity": drag,
                  "use_drag_R2Binfinity": table}
        else:
            S, st = MIX[case[1]], {"setup_planar": 1}
            S = ref.System(S.sa, S.sx * [1, 0, 1], S.da, S.dx * [1, 0, 1], S.dd * [1, 0, 1])
            form = "fts" if S.n == 0 else "fte"
            st = {}
        box = [24.0 if case[0] == "ints" else 8.0] * 3 if periodic else None
        w = World(S, flow, box, real=True)
        st = dict(st, timestepping_scheme=sch)
        spec = w.spec([8, 1, 0.1, n, form], st)
    spec["jit"] = jit
    d = sim.workdir()
    try:
        r = sim.run(spec, d)
        rec = sim.records(d)
    finally:
        sim.drop(d)
    return r, rec


class _Given(ref.System):
    """A system handed over with exactly the given arrays."""

    def __init__(self, S, given):
        ref.System.__init__(self, S.sa, S.sx, S.da, S.dx, S.dd)
        self.given = given

    def posdata(self, rot=None):
        return tuple(x.copy() for x in self.given)


def matrices(case, jit):
    from mc import repo
    if jit:
        sim.compiled()
    repo.load([1, 1, 0.1, 1])
    if jit:
        sim.compiled()
    if case[0] == "arranged":
        sy = [space.build(x) for x in space.arrangements(case[3])[case[1]:case[1] + case[2]]]
    else:
        sy = [space.build_pair(x) for x in space.pair_grid()[case[1]:case[1] + case[2]]]
    res = []
    for S in sy:
        row = []
        for f in (repo.Minf, repo.R2B):
            try:
                row.append(f(S))
            except Exception as e:
                row.append("%s: %s" % (type(e).__name__, str(e)[:300]))
        res.append(row)
    return res


def check(case, out):
    a, b = execute(case, True), execute(case, False)
    if case[0] == "ints":
        # and whole numbers given as such mean the same as given as decimals
        same(execute(case + ["as floats"], False), b, case, "whole numbers", out)
    kind = case[0]
    if kind in ("arranged", "pairs"):
        for i, (x, y) in enumerate(zip(a, b)):
            out.state(case[:2], i)
            out.edge(2)
            for name, p, q in zip(("far field", "near field"), x, y):
                if isinstance(p, str) or isinstance(q, str):
                    out.ok(isinstance(p, str) and isinstance(q, str), "runs|" + name,
                           "compiled: %.300s; interpreted: %.300s" % (p, q))
                    continue
                out.close("matrix|" + name, p, q, 1e-9, scale=max(1e-9, np.max(np.abs(q))))
                out.outcome(np.round(q, 6))
                out.trace()
        return
    if kind == "changed":
        kind = "changed|bead-bead %s|drag %s|table %s" % tuple(case[3])
    same(a, b, case, kind + ("|periodic" if kind == "world" and case[3] else ""), out)


def same(a, b, case, tag, out):
    (ra, ca), (rb, cb) = a, b
    out.state(case)
    out.edge()
    out.trace()
    if not out.ok(ra["end"] == rb["end"], "runs|" + tag,
                  "compiled ends %s (%s), interpreted %s (%s)" % (
                      ra["end"], ra.get("text", ra.get("code")), rb["end"],
                      rb.get("text", rb.get("code")))):
        return
    if ra["end"] != "complete":
        out.count("refused in both modes")
        return
    out.ok(len(ra["trace"]) == len(rb["trace"]), "steps|" + tag)
    for i, (x, y) in enumerate(zip(ra["trace"], rb["trace"])):
        out.state(case, i)
        out.edge()
        for k in range(10):
            p, q = np.asarray(x["out"][k], float), np.asarray(y["out"][k], float)
            if q.size:
                out.close("outputs|" + tag, p, q, 1e-8, scale=max(1e-3, np.max(np.abs(q))))
        for p, q in zip(x["pos"], y["pos"]):
            if q.size:
                out.close("positions|" + tag, p, q, 1e-8, scale=max(1, np.max(np.abs(q))))
        out.outcome(np.round(y["pos"][1], 5), np.round(y["pos"][4], 5))
    if not out.ok(sorted(ca) == sorted(cb) and len(ca) == 1, "record|" + tag, "%s %s" % (list(ca), list(cb))):
        return
    for (_, p), (_, q) in zip(ca.items(), cb.items()):
        for k in q:
            if q[k].dtype.kind in "fi" and q[k].size:
                out.close("record|" + tag, p[k], q[k], 1e-8, scale=max(1e-3, np.max(np.abs(q[k]))))
