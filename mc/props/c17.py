"""C17: command-line choices take effect; unusable requests are refused."""
import itertools

import numpy as np

from mc import ref, sim
from mc.world import World

ID = "C17"
BOUNDS = {
    "quick": "all argument prefixes of length 0-7 with 2-9 values per argument "
             "(one varied at a time and all combinations of two values), every "
             "malformed value in every position; complete runs for every "
             "combination of 6 forms x 4 particle mixes x every single missing "
             "block of data; unknown setup/input numbers; all pairs of 9 sizes "
             "for sphere-sphere, sphere-bead and bead-bead",
    "thorough": "three values per argument in all combinations, pairs of missing "
                "blocks",
}
ASSUME = ["a refusal is an exit with a message, or an error naming the placeholder "
          "that marks missing data, with no record written"]
NAMES = ["setup_number", "input_number", "timestep", "num_frames", "input_form",
         "extract_force_on_wall_due_to_dumbbells"]
VALUES = [["1", "2", "-3", "17"], ["1", "4", "-2", "12"], ["0.1", "0.25", "1", "1e-05", ".5"],
          ["1", "7", "250"], ["fte", "fts", "ufte", "ufteu", "duf"],
          ["True", "true", "t", "T", "1", "False", "false", "0", "f"]]
BAD = [["a", "1.5", "", "1e3", "0x1"], ["b", "2.0", "", "one"], ["x", "0,1", "", "1/3"],
       ["ten", "5.0", "", "1e2"]]
TRUE = ("True", "true", "t", "T", "1")
CAST = [int, int, float, int, str, lambda s: s in TRUE]
FORMS = ["fte", "fts", "ufte", "ufteu", "duf", "nonsense"]
NEED = {"fte": "Fa Ta Ea Fb DFb", "fts": "Fa Ta Sa Fb DFb", "ufte": "Fa Ta Ea Fb DFb",
        "ufteu": "Fa Ta Ea Fb DFb", "duf": "Fb DFb"}
BLOCKS = ["Fa", "Ta", "Sa", "Ea", "Fb", "DFb"]
SIZES = [0.01, 0.1, 1.0, 10.0, 100.0, 0.3, 3.0, 0.5, 2.0]
MIX = {
    "S": ref.System([1.0], [[0.5, 0.3, 0.2]]),
    "SS": ref.System([1.0, 1.0], [[0.5, 0.3, 0.2], [-2.1, 1.2, 2.3]]),
    "D": ref.System([], [], [0.1, 0.1], [[0.3, 0.2, 0.4], [2.2, 1.1, 0.3]],
                    [[0.9, 0.1, 0.6], [0.2, 0.1, 0.6]]),
    "SD": ref.System([1.0], [[0.5, 0.3, 0.2]], [0.1], [[3.3, -0.5, -2.4]], [[0.9, 0.1, 0.6]]),
}


def setup():
    sim.preload()


def cases(tier):
    out = [["args", []]]
    base = [v[0] for v in VALUES]
    seen = set()

    def add(a):
        if tuple(a) not in seen:
            seen.add(tuple(a))
            out.append(["args", list(a)])
    for k in range(1, 7):
        for pos in range(k):
            for v in VALUES[pos]:
                add(base[:pos] + [v] + base[pos + 1:k])
        n = 2 if tier == "quick" else 3
        for combo in itertools.product(*[v[-n:] if i == 4 else v[1:1 + n]
                                         for i, v in enumerate(VALUES[:k])]):
            add(combo)
    add(base + ["extra"])
    for pos in range(4):
        for b, k in itertools.product(BAD[pos], range(pos + 1, 7)):
            out.append(["bad", base[:pos] + [b] + base[pos + 1:k]])
    for s in (0, 9, 12, 1000):
        out.append(["unknown", "setup", [s, 1, 0.1, 1, "fte"]])
    for i in (0, 8, 9, 1000):
        out.append(["unknown", "input", [2, i, 0.1, 1, "fte"]])
    for i, f in itertools.product((1, 3, 4, 5, 7), FORMS):
        out.append(["shipped", [2, i, 0.1, 1, f]])
    for f, mix in itertools.product(FORMS, MIX):
        miss = [[]] + [[b] for b in BLOCKS]
        if tier == "thorough":
            miss += [list(c) for c in itertools.combinations(BLOCKS, 2)]
        for m in miss:
            out.append(["form", f, mix, m])
    for a, b, k in itertools.product(SIZES, SIZES, ("SS", "SD", "DD")):
        if a <= b or k == "SD":
            out.append(["sizes", a, b, k])
    out += [["effect", a] for a in ([], ["2"], ["2", "5"], ["2", "5", "0.3"],
                                    ["2", "5", "0.3", "4"], ["2", "5", "0.3", "4", "ufte"],
                                    ["4", "3", "0.25", "3", "fte", "False"])]
    return out


def read_settings(argv):
    import sys
    from mc.core import SRC
    sys.argv = ["run_simulation.py"] + argv
    sys.path[:] = [SRC] + [p for p in sys.path if p not in (SRC, "")]
    try:
        import settings
    except SystemExit as e:
        return "exit", str(e.code)
    except Exception as e:
        return "error", repr(e)
    return "ok", {k: (v.tolist() if isinstance(v, np.ndarray) else v)
                  for k, v in vars(settings).items()
                  if isinstance(v, (int, float, str, bool, tuple, np.ndarray, list))
                  and not k.startswith("__")}


def refused(r):
    """Stopped with an explanation."""
    if r["end"] == "exit":
        return isinstance(r["code"], str) and len(r["code"]) > 20
    return r["end"] == "error" and "pippa" in r["text"]


def check(case, out):
    out.state(case)
    out.edge()
    if case[0] in ("args", "bad"):
        st, got = sim.isolated(read_settings, case[1])
        out.trace()
        if case[0] == "bad":
            out.ok(st == "exit" and len(got) > 20, "malformed argument accepted|%d" % len(case[1]),
                   "%r: %s %s" % (case[1], st, str(got)[:300] if st != "ok" else ""))
            return
        if not out.ok(st == "ok", "arguments refused", "%r: %r" % (case[1], got)):
            return
        st0, dflt = sim.isolated(read_settings, [])
        if not out.ok(st0 == "ok", "no arguments refused", str(dflt)):
            return
        for k, (name, cast) in enumerate(zip(NAMES, CAST)):
            if k < len(case[1]):
                want = cast(case[1][k])
                out.ok(got.get(name) == want and isinstance(got.get(name), type(want)),
                       "argument ignored|" + name, "%r gives %r" % (case[1], got.get(name)))
        over = set(NAMES[:len(case[1])])
        for k in set(got) | set(dflt):
            if k not in over and k not in ("args", "number_of_args"):
                out.ok(got.get(k) == dflt.get(k), "argument changes another setting|" + k,
                       "%r: %r instead of %r" % (case[1], got.get(k), dflt.get(k)))
        out.outcome(np.array([repr(got.get(n)) for n in NAMES]).astype("U20").view(np.uint32))
        return
    if case[0] == "effect":
        return effect(case, out)
    d = sim.workdir()
    try:
        kind = case[0]
        should = None
        if kind == "unknown":
            r, should = sim.run({"argv": case[2]}, d), "refuse"
        elif kind == "shipped":
            r = sim.run({"argv": case[1]}, d)
            should = "refuse" if case[1][4] in ("duf", "nonsense") else None
        elif kind == "form":
            r, should = form_case(case, d)
        else:
            r, should = size_case(case, d)
        rec = sim.records(d)
    finally:
        sim.drop(d)
    out.trace()
    tag = "|".join(str(x) for x in case[:3]) if kind != "shipped" else \
        "shipped|input %s|%s" % (case[1][1], case[1][4])
    if r["end"] == "complete":
        out.count("accepted")
        out.ok(should != "refuse", "not refused|" + tag, r["stdout"][-300:])
        if should == "finite":
            v = list(rec.values())
            out.ok(len(v) == 1 and np.all(np.isfinite(v[0]["centres"])), "no finite record|" + tag,
                   str(list(rec)))
    else:
        out.count("refused")
        out.ok(refused(r), "stops without explanation|" + tag,
               (r.get("text") or str(r.get("code")))[-800:])
        out.ok(rec == {}, "record of a refused run|" + tag, str(list(rec)))
        out.ok(should != "finite", "refused|" + tag,
               (r.get("text") or str(r.get("code")))[-800:])
    out.outcome(np.array([len(r["trace"]), r["end"] == "complete", kind == "form"]))


def form_case(case, d):
    _, f, mix, missing = case
    S = MIX[mix]
    w = World(S, "none", real=True)

    def inp(n, posdata, frameno, timestep, last_velocities=None, input_form="fte",
            skip_computation=False, grand_resistance_matrix_fte=0):
        from functions.simulation_tools import empty_vectors
        full = list(w.input_ftsuoe(n, posdata, frameno, timestep, last_velocities, input_form))
        e = empty_vectors(posdata)
        full[2] = [np.zeros((3, 3)).tolist() for _ in range(S.n)]
        full[6], full[7], full[10], full[11] = (list(e[i]) for i in (6, 7, 10, 11))
        pos = dict(Fa=0, Ta=1, Sa=2, Fb=4, DFb=5, Ea=8)
        for b in missing:
            full[pos[b]] = list(e[pos[b]])
        return tuple(full)
    r = sim.run(w.spec([8, 1, 0.1, 1, f], {}, input=inp), d)
    if f == "nonsense":
        return r, "refuse"
    if (S.n == 0) != (f in ("duf", "fts")) and (S.n == 0 or f == "duf"):
        return r, "refuse"
    need = [b for b in NEED[f].split() if (S.n if b in ("Fa", "Ta", "Sa", "Ea") else S.m)]
    if any(b in need for b in missing):
        return r, "refuse"
    if f == "ufteu" and S.m == 0:
        return r, None                      # nothing for the second U to refer to
    return r, "finite"


def ratio_ok(a, b):
    return any(np.isclose(a / b, q) for q in (0.01, 0.1, 1.0, 10.0, 100.0))


def size_case(case, d):
    _, a, b, k = case
    L = 1.3 * (a + b)
    if k == "SS":
        S = ref.System([a, b], [[0, 0, 0], [L, 0.1 * L, 0]])
    elif k == "SD":
        S = ref.System([a], [[0, 0, 0]], [b], [[L + 2 * b, 0.1 * L, 0]], [[3 * b, 0, b]])
    else:
        S = ref.System([], [], [a, b], [[0, 0, 0], [L + 2 * a + 2 * b, 0.1 * L, 0]],
                       [[0, 3 * a, a], [b, 3 * b, 0]])
    w = World(S, "none", real=True)
    r = sim.run(w.spec([8, 1, 1e-3, 1, "fte" if S.n else "fts"], {}), d)
    return r, "finite" if ratio_ok(a, b) else "refuse"


def effect(case, out):
    """The run itself uses what was asked for."""
    a = case[1]
    d = sim.workdir()
    try:
        w = World(MIX["SS"])
        r = sim.run({"argv": a, "settings": {}, "solver": w.solver}, d)
        if not sim.check_ended(out, r, "effect"):
            return
        rec = sim.records(d)
    finally:
        sim.drop(d)
    out.trace()
    dflt = ["1", "1", "0.1", "100", "fte"]
    full = (a + dflt[len(a):])
    dt, n = float(full[2]), int(full[3])
    frames = sorted({int(x["frame"]) for x in r["trace"]})
    out.ok(frames == list(range(n)), "effect|number of frames", str(frames[-1:]))
    out.ok(all(x["dt"] == dt for x in r["trace"]), "effect|timestep")
    name = list(rec)[0] if rec else ""
    want = "-s%s-i%s-%sfr-t%s-" % (full[0], full[1], full[3], str(dt).replace(".", "p"))
    out.ok(want in name, "effect|name", "%s in %s" % (want, name))
    out.outcome(np.array([n, dt]))
