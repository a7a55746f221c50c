"""C21: the tabulated two-sphere scalars are consistent and reproducible."""
import glob
import itertools
import os
import shutil
import subprocess
import sys

import numpy as np

from mc import ref, sim
from mc.core import REPO, SCRATCH, SRC
from mc.props.c24 import attempt

ID = "C21"
FRS = REPO + "/find_resistance_scalars"
BOUNDS = {
    "quick": "every entry of every table (11 scalars x 2 x 38 separations x 5 size "
             "ratios, 3 tables); near-field functions for every tabulated and 38 further "
             "size ratios at 11 separations; mid-field program for every tabulated size ratio and "
             "separation from 2.3 and for further size ratios; combining and both "
             "subtracting programs for all 7 sets of size ratios and 4 sets of separations",
    "thorough": "the near-field program as a whole, mid-field separations from 2.1 (2.05 for size ratio 0.01), further "
                "size ratios 0.01, 0.02, ... 0.99",
}
ASSUME = ["the Fortran program is compiled as its documentation says",
          "separations are listed in ascending order",
          "regenerated mid-field values agree to the convergence error of the Fortran program"]
NAMES = "XA YA YB XC YC XG YG YH XM YM ZM".split()
# powers of a1 by which each scalar is made nondimensional
POWER = dict(A=1, B=2, C=3, G=2, H=3, M=3)
LAMS = [0.01, 0.1, 1.0]
CHUNK = 1
# functions whose series share their coefficients
GROUPS = [["X11A", "X12A", "X11G", "X12G", "X11M", "X12M", "X11C", "X12C"],
          ["Y11A", "Y12A", "Y11B", "Y12B", "Y11G", "Y12G"], ["Y11C", "Y12C", "Y11H", "Y12H"],
          ["Y11M", "Y12M"], ["Z11M"], ["Z12M"]]
CASE_LIMIT = 780


def unround():
    """Two-figure size ratios which two reciprocals do not restore."""
    return [k / 100 for k in range(1, 100) if 1 / (1 / (k / 100)) != k / 100]


def setup():
    sim.preload()
    d = SCRATCH + "/lamb"
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(FRS + "/helen_fortran/*.f"):
        shutil.copy(f, d)
    r = subprocess.run(["gfortran", "2sphere.f", "base.f", "reflect.f", "-o", "lamb.exe"],
                       cwd=d, capture_output=True, text=True)
    with open(d + "/log", "w") as f:
        f.write(r.stdout + r.stderr)


def cases(tier):
    out = [["compile"], ["copies"], ["sizes"]]
    out += [["column", j] for j in range(5)]
    out += [["functions", g, tier] for g in GROUPS]
    out += [["near", list(l), n] for l in ([0.01, 0.1, 1.0], [1.0], [0.5], [0.3, 1.0], [0.38, 0.49])
            for n in (1, 2, 11)]
    if tier == "thorough":
        out.append(["whole"])
    lo = {"quick": {0.01: 2.3, 0.1: 2.3, 1.0: 2.3},
          "thorough": {0.01: 2.05, 0.1: 2.1, 1.0: 2.1}}[tier]
    for l in LAMS:
        out += [["mid", [l], [s]] for s in mids() if s >= lo[l] - 1e-9]
    out += [["mid", LAMS, [4.4, 4.5]], ["mid", [0.1], [3.0, 4.0]]]
    more = (unround()[:4] + [0.3, 0.5, 0.75] if tier == "quick" else
            [k / 100 for k in range(2, 100) if k not in (10,)])
    out += [["new", [l]] for l in more] + [["new", [0.25, 0.5, 1.0]], ["new", [1.0]]]
    for lam in itertools.chain(*[itertools.combinations(LAMS, k) for k in (1, 2, 3)]):
        for near, mid in ((11, 27), (1, 1), (3, 2), (11, 1)):
            out.append(["combine", list(lam), near, mid])
    for lam in itertools.chain(*[itertools.combinations(LAMS, k) for k in (1, 2, 3)]):
        for s in ([0, 38], [0, 1], [9, 14]):
            out += [["subtract", list(lam), s], ["drag", list(lam), s]]
    return out


def cost(case):
    """The slowest cases start first."""
    if case[0] == "functions":
        return 9 if case[1] in (["Z12M"], ["Z11M"]) else 8
    return {"whole": 10, "new": 2, "mid": 1 + (case[-1][0] < 2.3 if case[0] == "mid" else 0)}.get(
        case[0], 0)


# --------------------------------------------------------------- tables
def mids():
    return [float(x) for x in open(FRS + "/values_of_s_dash_midfield.txt").read().split()]


def nears():
    return [float(x) for x in open(FRS + "/values_of_s_dash_nearfield.txt").read().split()]


def rows(path):
    """The last table in a human-readable file."""
    res = []
    for line in open(path):
        try:
            v = [float(x) for x in line.split()]
        except ValueError:
            res = []
            continue
        if v:
            res.append(v)
    return np.array(res)


def recip(lam):
    return np.array(sorted(set(lam) | {1 / l for l in lam if 1 / l not in lam}))


def scale(k):
    return POWER[NAMES[k][1]]


def shipped(name):
    return np.load(FRS + "/" + name)


def same_table(out, key, got, want, tol):
    """Every column of one scalar agrees to tol of its own largest value."""
    if not out.ok(got.shape == want.shape, key + "|shape", "%s instead of %s" % (
            got.shape, want.shape)):
        return
    for k, g in itertools.product(range(11), range(2)):
        for i, j in itertools.product(*map(range, got.shape[2:])):
            w = want[k, g, i, j]
            # a coefficient which nearly vanishes is compared with its size when
            # the spheres are alike
            out.close(key + "|" + NAMES[k] + "1%d" % (g + 1), got[k, g, i, j], w, tol,
                      tol * 1e-3)


def text(out, key, path, table, s, lam):
    """The readable copy holds the same numbers, once each."""
    t = rows(path)
    if not out.ok(t.shape == (2 * len(s) * len(lam), 14), key + "|rows", str(t.shape)):
        return
    n = 0
    for r in t:
        i, j = np.argmin(np.abs(s - r[0])), np.argmin(np.abs(np.log(lam / r[1])))
        out.ok(abs(s[i] - r[0]) < 1e-7 and abs(lam[j] / r[1] - 1) < 1e-7, key + "|where", str(r[:3]))
        out.close(key + "|values", r[3:], table[:, int(r[2]), i, j], 1e-7)
        n += 1
    out.ok(len({tuple(r[:3]) for r in t}) == n, key + "|repeated rows")


def symmetric(out, key, t, lam, tol, ks=range(11)):
    """Exchanging the spheres: the coupling of 1 to 2 is that of 2 to 1."""
    for k in ks:
        if NAMES[k][1] in "ACM":
            for j, l in enumerate(lam):
                jj = int(np.argmin(np.abs(np.log(lam * l))))
                a, b = t[k, 1, :, j], t[k, 1, :, jj] * l ** scale(k)
                out.edge(a.size)
                out.ok(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), 1e-7)),
                       key + "|exchange|" + NAMES[k],
                       "size ratio %g: %s and %s" % (l, a, b))


def tables(raw, s, lam):
    t = ref.Tables(s=np.asarray(s, float), lam=np.array([1.0]), raw=raw)
    t.lam = np.asarray(lam, float)
    return t


def matrix(t, s, l):
    """The 22x22 matrix of two spheres which the scalars stand for."""
    a, b, c, d = t.pair(np.array([0.36, -0.48, 0.8]) * s * (1 + l) / 2, 1.0, l)
    return np.block([[a, b], [c, d]])


def far(s, l):
    S = ref.System([1.0, l], [[0, 0, 0], np.array([0.36, -0.48, 0.8]) * s * (1 + l) / 2])
    R = np.linalg.inv(S.Minf())
    o = np.concatenate([S.idx(0), S.idx(1)])
    return R[np.ix_(o, o)]


def units(l):
    """Square roots of the two spheres' own resistances."""
    v = np.array([6.] * 3 + [8.] * 3 + [20 / 3] * 5) * np.pi
    p = np.array([1] * 3 + [3] * 8)
    return np.sqrt(np.concatenate([v, v * l ** p]))


def difference(out, key, full, d, s, lam, drag=False):
    """Full scalars less subtracted ones are the far-field part (or drag)."""
    tf, td = tables(full, s, lam), tables(d, s, lam)
    for x, l in itertools.product(s, lam):
        u = units(l)
        w = np.outer(u, u)
        want = np.diag(u ** 2) if drag else far(x, l)
        out.edge()
        out.close(key, (matrix(tf, x, l) - matrix(td, x, l)) / w, want / w, 1e-6,
                  msg="separation %g, size ratio %g" % (x, l))


# (1/xi, log 1/xi) coefficients of the 11 and 12 scalars near contact, in the
# order of NAMES; Jeffrey & Onishi 1984 and Jeffrey 1992, scaled on sphere 1
def contact(l):
    c = (1 + l) ** 3
    q = (1 + l) ** 2
    xa = 2 * l ** 2 / c, l * (1 + 7 * l + l ** 2) / 5 / c
    ya = 4 * l * (2 + l + 2 * l ** 2) / 15 / c
    yb = -l * (4 + l) / 5 / q
    xg = 3 * l ** 2 / c, 3 * l * (1 + 12 * l - 4 * l ** 2) / 10 / c
    yg = l * (4 - l + 7 * l ** 2) / 10 / c
    return [
        (xa, (-xa[0], -xa[1])), ((0, ya), (0, -ya)), ((0, yb), (0, -yb)),
        ((0, 0), (0, 0)), ((0, 2 * l / 5 / (1 + l)), (0, l ** 2 / 10 / (1 + l))),
        (xg, (-xg[0], -xg[1])), ((0, yg), (0, -yg)),
        ((0, l * (2 - l) / 10 / q), (0, l ** 2 * (1 + 7 * l) / 20 / q)),
        ((6 * l ** 2 / 5 / c, 3 * l * (1 + 17 * l - 9 * l ** 2) / 25 / c),
         (6 * l ** 3 / 5 / c, 3 * l ** 2 * (-4 + 17 * l - 4 * l ** 2) / 25 / c)),
        ((0, 6 * l * (1 - l + 4 * l ** 2) / 25 / c),
         (0, 3 * l ** 2 * (7 - 10 * l + 7 * l ** 2) / 50 / c)),
        ((0, 0), (0, 0))]


def limits(out, key, t, s, lam, which=None):
    """Behaviour towards contact, from the three nearest separations."""
    xi = np.asarray(s[:3]) - 2
    if len(xi) < 3 or xi[2] > 1e-4:
        return
    m = np.array([[1 / x, np.log(1 / x), 1] for x in xi])
    for (k, g), (j, l) in itertools.product(
            which or itertools.product(range(11), range(2)), enumerate(lam)):
        a, b, _ = np.linalg.solve(m, t[k, g, :3, j])
        A, B = contact(l)[k][g]
        # the next term is of order xi log xi, and larger for unlike spheres
        size = max(abs(B), abs(A)) or 0.3 * abs(t[k, g, 0, j])
        out.edge()
        out.outcome(k, g, j, round(a, 6), round(b, 4))
        out.ok(abs(a - A) <= 1e-4 * size and abs(b - B) <= 0.06 * size,
               key + "|contact|" + NAMES[k] + "1%d" % (g + 1),
               "size ratio %g: %.6g/xi %+.6g log instead of %.6g/xi %+.6g log" % (l, a, b, A, B))


def apart(out, key, f, d, s, lam):
    """At the largest separation the subtracted scalars have all but gone."""
    alone = np.zeros((11, 2))
    alone[[0, 1, 3, 4, 8, 9, 10], 0] = 1
    for (k, g), j in itertools.product(itertools.product(range(11), range(2)), range(len(lam))):
        out.edge()
        out.ok(abs(d[k, g, -1, j]) <= abs(f[k, g, -1, j] - alone[k, g]) + 1e-9,
               key + "|apart|" + NAMES[k] + "1%d" % (g + 1), "%g of %g" % (
                   d[k, g, -1, j], f[k, g, -1, j]))


# ------------------------------------------------------------- programs
def place(lam, near=None, mid=None):
    """A copy of the folder of programs, beside the package, with these inputs."""
    w = sim.workdir()
    os.symlink(SRC, w + "/stokesian_dynamics")
    d = w + "/find_resistance_scalars"
    os.makedirs(d + "/helen_fortran")
    for f in glob.glob(FRS + "/*.py"):
        shutil.copy(f, d)
    if os.path.exists(SCRATCH + "/lamb/lamb.exe"):
        shutil.copy(SCRATCH + "/lamb/lamb.exe", d + "/helen_fortran")
    for f, v in (("lambda", lam), ("s_dash_nearfield", near), ("s_dash_midfield", mid)):
        if v is not None:
            with open(d + "/values_of_%s.txt" % f, "w") as h:
                h.write("\n".join(repr(float(x)) for x in v))
    return w, d


def run(out, d, program, key):
    env = dict(os.environ, NUMBA_DISABLE_JIT="1")
    r = subprocess.run([sys.executable, "-B", program], cwd=d, capture_output=True, text=True,
                       env=env, stdin=subprocess.DEVNULL)
    out.trace()
    return out.ok(r.returncode == 0, key + "|failed", r.stdout[-500:] + r.stderr[-2500:])


def result(out, d, name, key):
    if not out.ok(os.path.exists(d + "/" + name), key + "|missing", "%s not written; there are %s" % (
            name, sorted(os.listdir(d)))):
        return None
    return np.load(d + "/" + name)


def pick(t, s, s_all, lam):
    j = [int(np.argmin(np.abs(np.log(recip(LAMS) / l)))) for l in recip(lam)]
    i = [int(np.argmin(np.abs(np.asarray(s_all) - x))) for x in s]
    return t[:, :, i][:, :, :, j]


def check(case, out):
    out.state(case)
    kind = case[0]
    if kind == "compile":
        out.ok(os.path.exists(SCRATCH + "/lamb/lamb.exe"), "compile",
               open(SCRATCH + "/lamb/log").read()[-3000:])
        return
    if kind in TABLE:
        return TABLE[kind](case, out)
    w = None
    try:
        w, d = {"whole": lambda: place(LAMS, nears()),
                "mid": lambda: place(case[1], None, case[2] if kind == "mid" else None),
                "new": lambda: place(case[1], nears()[:3], [3.5, 4.5])}.get(
                    kind, lambda: place(case[1]))()
        PROGRAM[kind](case, out, d)
    finally:
        if w:
            sim.drop(w)


def copies(case, out):
    """What the package reads is what the programs wrote, in both forms."""
    s, lam = np.loadtxt(FRS + "/values_of_s_dash.txt"), recip(LAMS)
    P = SRC + "/resistance_scalars/"
    for name in ("scalars_general_resistance", "scalars_general_resistance_d"):
        t = np.load(P + name + ".npy")
        same_table(out, "copies|" + name, t, shipped(name + ".npy"), 0)
        text(out, "copies|text|" + name, P + name + ".txt", t, s, lam)
        text(out, "copies|text|" + name, FRS + "/" + name + ".txt", t, s, lam)
        out.edge(t.size)
    for name in ("values_of_lambda.txt", "values_of_s_dash.txt"):
        out.close("copies|" + name, np.loadtxt(P + name), np.loadtxt(FRS + "/" + name), 0, 0)
    m = shipped("scalars_general_resistance_midfield.npy")
    text(out, "copies|text|mid", FRS + "/scalars_general_resistance_midfield.txt", m,
         np.array(mids()), lam)
    n = shipped("scalars_general_resistance_nearfield.npy")
    same_table(out, "copies|joined", shipped("scalars_general_resistance.npy"),
               np.concatenate([n, m], axis=2), 0)


def sizes(case, out):
    """The size ratios and separations the package reads, and its tables."""
    def look():
        from mc import repo
        repo.load([1, 1, 0.1, 1])
        import resistance_scalars.data as rd
        return [np.array(x) for x in (rd.s_dash_range, rd.lam_range,
                                      rd.lam_range_with_reciprocals, rd.XYZ_raw)]
    v = attempt(out, "read", look)
    if v is None:
        return
    s, l, lr, raw = v
    out.trace()
    out.close("read|separations", s, sorted(nears() + mids()), 1e-12)
    out.close("read|size ratios", l, LAMS, 1e-12)
    out.close("read|reciprocals", np.sort(lr), recip(LAMS), 1e-12)
    same_table(out, "read|table", raw, shipped("scalars_general_resistance_d.npy"), 0)


def column(case, out):
    j = case[1]
    P = SRC + "/resistance_scalars/"
    f, d, g = (np.load(P + "scalars_general_resistance%s.npy" % x) for x in ("", "_d", "_d_drag"))
    s, lam = np.loadtxt(P + "values_of_s_dash.txt"), recip(LAMS)
    for i in range(len(s)):
        out.state("entry", i, j)
    symmetric(out, "table", f, lam, 2e-5)
    symmetric(out, "table d", d, lam, 2e-3)
    limits(out, "table", f, s, lam)
    apart(out, "table", f, d, s, lam)
    k = [j] if lam[j] == 1 else [j, 4 - j]
    k.sort()
    difference(out, "table difference", f[..., k], d[..., k], s, lam[k])
    difference(out, "table drag", f[..., k], g[..., k], s, lam[k], True)


def functions(case, out):
    """The near-field functions themselves, for every tabulated size ratio and
    separation and for further size ratios."""
    s = nears()
    tab = recip(LAMS)
    more = [k / 20 for k in range(1, 20)]
    lams = sorted(set(tab) | set(more) | {1 / l for l in more})
    ships = shipped("scalars_general_resistance_nearfield.npy")

    def values():
        sys.path.insert(0, FRS)
        import functions_nearfield as fn
        return {f: np.array([[getattr(fn, f)(x - 2, l) for l in lams] for x in s])
                for f in case[1]}

    v = attempt(out, "near", values)
    if v is None:
        return
    out.trace()
    for f in case[1]:
        k, g = NAMES.index(f[0] + f[3]), int(f[2]) - 1
        t = np.full((11, 2, len(s), len(lams)), np.nan)
        t[k, g] = v[f]
        for (i, x), (j, l) in itertools.product(enumerate(s), enumerate(lams)):
            out.state("function", f, x, l)
            out.edge()
            if l in tab:
                out.close("near|" + f, v[f][i, j], ships[k, g, i, list(tab).index(l)], 1e-6)
        if g == 1:
            symmetric(out, "near", t, np.array(lams), 1e-6, ks=[k])
        limits(out, "near", t, s, lams, [(k, g)])


STAND_IN = """
def _f(k, g):
    def f(xi, lam):
        return (k + 1) * 100 + 10 * g + xi * (k + 2) + lam * (g + 3) + xi * lam * k
    return f
for _k, _n in enumerate("XA YA YB XC YC XG YG YH XM YM ZM".split()):
    for _g in (0, 1):
        globals()[_n[0] + "1%d" % (_g + 1) + _n[1]] = _f(_k, _g)
        globals()[_n[0] + "1%d" % (_g + 1) + _n[1]].__name__ = _n[0] + "1%d" % (_g + 1) + _n[1]
"""


def near(case, out, d):
    """The near-field program puts each function's values in their place; the
    functions are replaced by ones which say which they are."""
    lam, s = case[1], nears()[:case[2]]
    with open(d + "/functions_nearfield.py", "w") as f:
        f.write(STAND_IN)
    with open(d + "/values_of_s_dash_nearfield.txt", "w") as f:
        f.write("\n".join(repr(x) for x in s))
    fn = {}
    exec(STAND_IN, fn)
    lr = recip(lam)
    want = np.array([[[[fn[n[0] + "1%d" % g + n[1]](x - 2, l) for l in lr] for x in s]
                      for g in (1, 2)] for n in NAMES])
    nearly(out, d, want, np.array(s), lr, 1e-12)


def whole(case, out, d):
    nearly(out, d, shipped("scalars_general_resistance_nearfield.npy"), np.array(nears()),
           recip(LAMS), 1e-6)


def nearly(out, d, want, s, lr, tol):
    if not run(out, d, "generate_scalars_nearfield.py", "near"):
        return
    t = result(out, d, "scalars_general_resistance_nearfield.npy", "near")
    if t is None:
        return
    same_table(out, "near", t, want, tol)
    text(out, "near|text", d + "/scalars_general_resistance_nearfield.txt", t, s, lr)


def mid(case, out, d, lam=None, s=None):
    lam, s = lam or case[1], s or case[2]
    if not run(out, d, "generate_scalars_midfield.py", "mid"):
        return
    t = result(out, d, "scalars_general_resistance_midfield.npy", "mid")
    if t is None:
        return
    lr = recip(lam)
    out.ok(t.shape == (11, 2, len(s), len(lr)), "mid|shape", str(t.shape))
    text(out, "mid|text", d + "/scalars_general_resistance_midfield.txt", t, np.array(s), lr)
    symmetric(out, "mid", t, lr, 2e-5)
    for x, l in itertools.product(s, lr):
        e = np.linalg.eigvalsh(matrix(tables(t, s, lr), x, l) / np.outer(units(l), units(l)))
        out.ok(e[0] > 0, "mid|definite", "separation %g, size ratio %g: %g" % (x, l, e[0]))
    if set(lam) <= set(LAMS):
        same_table(out, "mid", t, pick(shipped("scalars_general_resistance_midfield.npy"),
                                       s, mids(), lam), 1e-4)
        m = rows(FRS + "/scalars_general_mobility_midfield.txt")
        g = rows(d + "/scalars_general_mobility_midfield.txt")
        for r in g:
            q = m[(np.abs(m[:, 0] - r[0]) < 1e-7) & (np.abs(m[:, 1] / r[1] - 1) < 1e-7)
                  & (m[:, 2] == r[2])]
            if out.ok(len(q) == 1, "mid|mobility rows", str(r[:3])):
                for k in range(11):
                    out.close("mid|mobility", r[3 + k], q[0][3 + k], 1e-4, 1e-7)
    return t


def new(case, out, d):
    """All the steps, in turn, for size ratios which are not in the tables."""
    lam = case[1]
    lr = recip(lam)
    s = nears()[:3] + [3.5, 4.5]
    m = mid(case, out, d, lam, s[3:])
    if m is None:
        return
    # any values do: the near-field program has its own cases
    n = np.repeat(m[:, :, :1], 3, axis=2) * 2.0
    np.save(d + "/scalars_general_resistance_nearfield.npy", n)
    after(out, d, lam, np.concatenate([n, m], axis=2), s, ("subtract", "drag"), True)


def after(out, d, lam, want, s, steps, join):
    lr = recip(lam)
    if join:
        if not run(out, d, "combine_scalars.py", "combine"):
            return
        f = result(out, d, "scalars_general_resistance.npy", "combine")
        if f is None:
            return
        same_table(out, "combine", f, want, 0)
        text(out, "combine|text", d + "/scalars_general_resistance.txt", want, np.array(s), lr)
        out.close("combine|separations", np.loadtxt(d + "/values_of_s_dash.txt", ndmin=1), s, 1e-8)
    for step in steps:
        prog, name = {"subtract": ("subtract_R2Binfinity_from_scalars.py", "d"),
                      "drag": ("subtract_R2Binfinitydrag_from_scalars.py", "d_drag")}[step]
        if not run(out, d, prog, step):
            continue
        t = result(out, d, "scalars_general_resistance_%s.npy" % name, step)
        if t is None:
            continue
        difference(out, step, want, t, s, lr, step == "drag")
        text(out, step + "|text", d + "/scalars_general_resistance_%s.txt" % name, t,
             np.array(s), lr)


def combine(case, out, d):
    _, lam, near, mid = case
    a, b = nears()[-near:], mids()[-mid:]
    for f, v in (("near", a), ("mid", b)):
        np.savetxt(d + "/values_of_s_dash_%sfield.txt" % f, v)
    n = pick(shipped("scalars_general_resistance_nearfield.npy"), a, nears(), lam)
    m = pick(shipped("scalars_general_resistance_midfield.npy"), b, mids(), lam)
    np.save(d + "/scalars_general_resistance_nearfield.npy", n)
    np.save(d + "/scalars_general_resistance_midfield.npy", m)
    after(out, d, lam, np.concatenate([n, m], axis=2), a + b, (), True)


def subtract(case, out, d):
    kind, lam, (i, j) = case
    s = np.loadtxt(FRS + "/values_of_s_dash.txt")
    np.savetxt(d + "/values_of_s_dash.txt", s[i:j], fmt="% .8e")
    f = pick(shipped("scalars_general_resistance.npy"), s[i:j], s, lam)
    np.save(d + "/scalars_general_resistance.npy", f)
    after(out, d, lam, f, list(s[i:j]), (kind,), False)
    if kind == "subtract" and os.path.exists(d + "/scalars_general_resistance_d.npy"):
        same_table(out, "subtract|shipped", np.load(d + "/scalars_general_resistance_d.npy"),
                   pick(shipped("scalars_general_resistance_d.npy"), s[i:j], s, lam), 1e-5)


TABLE = {"copies": copies, "sizes": sizes, "column": column, "functions": functions}
PROGRAM = {"near": near, "whole": whole, "mid": mid, "new": new, "combine": combine, "subtract": subtract,
           "drag": subtract}
