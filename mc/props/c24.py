"""C24: a saved frame can be used as the start of a new run or drawn."""
import ast
import itertools
import os
import sys
import traceback
import warnings

import numpy as np

from mc import core, ref, repo, sim
from mc.core import SRC
from mc.world import World

ID = "C24"
MIX = {
    "1s": ref.System([1.0], [[0.3, -0.2, 0.5]]),
    "2s": ref.System([1.0, 1.0], [[0.3, -0.2, 0.5], [-2.0, 1.1, 0.4]]),
    "1d": ref.System([], [], [0.1], [[0.4, 0.2, -0.6]], [[0.5, -0.3, 0.4]]),
    "2d": ref.System([], [], [0.1, 0.1], [[0.4, 0.2, -0.6], [1.5, 1.0, 0.2]],
                     [[0.5, -0.3, 0.4], [0.0, 0.6, -0.5]]),
    "1s1d": ref.System([1.0], [[0.3, -0.2, 0.5]], [0.1], [[2.0, 0.4, -0.3]],
                       [[0.5, -0.3, 0.4]]),
    "2s2d": ref.System([1.0, 1.0], [[0.3, -0.2, 0.5], [-2.0, 1.1, 0.4]], [0.1, 0.1],
                       [[2.0, 0.4, -0.3], [1.5, 2.0, 0.2]],
                       [[0.5, -0.3, 0.4], [0.0, 0.6, -0.5]]),
}
# (positions every, forces every, first saved frame)
SAVES = [(1, 1, 0), (2, 2, 0), (1, 2, 0), (2, 1, 0), (3, 1, 0), (1, 3, 0), (1, 1, 1),
         (2, 3, 1), (1, 0, 0)]
STEPS = ["0.1", "1e-05", "0.00001", "2", "0.25", "1e-3"]
BOUNDS = {
    "quick": "records of real runs of 6 mixtures x 9 saving schedules x 6 spellings of "
             "the timestep (one dimension at a time, frames 1-5), free and in a sheared "
             "cell; every frame of each is loaded with 3 size choices, loaded into a "
             "new run, drawn by plot_positions and by make_video with 5 frame ranges",
    "thorough": "the full product",
}
ASSUME = ["the film encoder is replaced by one that looks at the drawn objects",
          "records holding at least one frame",
          "programs are steered by the variables at their top, as their comments say"]
RANGES = [(0, 0, 1), (0, 0, 2), (1, 0, 1), (1, 3, 1), (0, 4, 2)]


def setup():
    sim.preload()
    import matplotlib.pyplot, matplotlib.animation, pylab           # noqa
    import mpl_toolkits.mplot3d                                     # noqa


def cases(tier):
    out = []
    if tier == "thorough":
        base = list(itertools.product(MIX, SAVES, STEPS, (5,), (None, "box")))
    else:
        base = [(m, s, "0.1", 5, b) for m in MIX for s in SAVES for b in (None, "box")
                if b is None or s[2] == 0]
        base += [(m, (1, 1, 0), t, 3, None) for m in MIX for t in STEPS[1:]]
    base += [(m, (1, 1, 0), "0.1", n, None) for m in MIX for n in (1, 2)]
    for m, s, t, n, b in base:
        if s[2] < n:
            out.append(["record", m, list(s), t, n, b])
    out += [["shipped", s, i, f] for s, i, f in (
        (1, 1, "fte"), (2, 1, "fte"), (3, 1, "fte"), (1, 2, "fte"), (3, 3, "fte"),
        (4, 1, "fte"))]
    return out


def world(mix, b):
    return World(MIX[mix], "shear" if b else "none", [7.0, 7.0, 7.0] if b else None,
                 speed=0.8)


def check(case, out):
    d = sim.workdir()
    os.mkdir(d + "/plotting")
    os.mkdir(d + "/output_videos")
    try:
        if case[0] == "record":
            _, mix, s, t, n, b = case
            w = world(mix, b)
            spec = w.spec([8, 1, t, n, "fte" if w.S.n else "duf"], dict(
                save_positions_every_n_timesteps=s[0], save_forces_every_n_timesteps=s[1],
                start_saving_after_first_n_timesteps=s[2]))
        else:
            _, st, inp, f = case
            w = World(MIX["1s"])
            spec = {"argv": [st, inp, 0.1, 3, f], "settings": {},
                    "solver": still}
        r = sim.run(spec, d)
        if not sim.check_ended(out, r):
            return
        rec = [(k, v) for k, v in sim.records(d).items() if "_TEMP" not in k]
        out.ok(len(rec) == 1 and rec[0][1] is not None, "record missing", str(rec)[:200])
        name, rec = rec[0]
        name = name[:-len(".npz")]
        out.trace()
        X, D = rec["centres"], rec["deltax"]
        for k in range(len(X)):
            loaded(case, d, name, rec, k, out)
            drawn(case, d, w, name, rec, k, out)
        if case[0] == "record":
            restarted(case, d, w, name, rec, out)
        for rng in RANGES if case[0] == "record" and case[2] == [1, 1, 0] else RANGES[:1]:
            film(case, d, w, name, rec, rng, out)
        if case[0] == "record" and case[2] == [1, 1, 0] and case[3] == "0.1":
            drawn(case, d, w, name, rec, 0, out, True)
            film(case, d, w, name, rec, RANGES[0], out, True)
    finally:
        sim.drop(d)


def still(posdata, frameno, timestep):
    return World(ref.System(*[posdata[i] for i in (0, 1, 3, 4, 5)])).solver(
        posdata, frameno, timestep)


def attempt(out, tag, fn, *a):
    """fn in a process of its own, errors of the code under test reported."""
    def run():
        try:
            return True, fn(*a)
        except SystemExit as e:
            return False, (tag + "|stopped", "exit %r" % (e.code,))
        except BaseException as e:
            tb = e.__traceback__
            if not core.in_repo(tb):
                raise
            return False, (tag + "|exception|%s@%s" % (type(e).__name__, core.repo_site(tb)),
                           "".join(traceback.format_exception(type(e), e, tb))[-3000:])
    ok, v = sim.isolated(run)
    if not ok:
        out.fail(*v)
        return None
    return v


# ------------------------------------------------------------- loading
def load_frame(d, name, k, sizes):
    os.chdir(d)
    repo.load([8, 1, 0.1, 1])
    import functions.shared as fs
    return [np.array(x) for x in fs.same_setup_as(
        name, frameno=k, sphere_size=sizes[0], dumbbell_size=sizes[1])]


def loaded(case, d, name, rec, k, out):
    m = rec["deltax"].shape[1]
    n = rec["centres"].shape[1] - m
    for sizes in ((1, 0.1), (0.5, 0.05), (2.0, 1.0)):
        p = attempt(out, "load", load_frame, d, name, k, sizes)
        out.state(case, "load", k, sizes)
        out.edge()
        if p is None:
            continue
        same(out, "load", p, rec, k, n, m)
        out.close("load|sphere sizes", p[0], np.full(n, sizes[0]), 0, 0)
        out.close("load|dumbbell sizes", p[3], np.full(m, sizes[1]), 0, 0)
        want = rec["centres"][k, :n, None, :] + sizes[0] * np.array([[1., 0, 0], [0, 0, 1.]])
        if n:
            out.close("load|markers", p[2], want, 1e-12)


def same(out, tag, p, rec, k, n, m):
    out.close(tag + "|spheres", np.reshape(p[1], (-1, 3)), rec["centres"][k, :n], 1e-14)
    out.close(tag + "|dumbbells", np.reshape(p[4], (-1, 3)), rec["centres"][k, n:], 1e-14)
    out.close(tag + "|extents", np.reshape(p[5], (-1, 3)), rec["deltax"][k], 1e-14)


def restarted(case, d, w, name, rec, out):
    """A new run whose setup loads a frame of the record."""
    m = rec["deltax"].shape[1]
    n = rec["centres"].shape[1] - m
    for k in sorted({0, len(rec["centres"]) // 2, len(rec["centres"]) - 1}):
        def early(res, k=k):
            import functions.shared as fs
            real = fs.same_setup_as
            fs.same_setup_as = lambda *a, **q: real(name, frameno=k)
        spec = w.spec([8, 1, "0.1", 1, "fte" if n else "duf"], {}, stamp="2601010001",
                      early=early)
        spec["system"] = None
        r = sim.run(spec, d)
        out.state(case, "restart", k)
        out.edge()
        if not sim.check_ended(out, r):
            continue
        out.trace()
        same(out, "restart", r["trace"][0]["pos"], rec, k, n, m)
    for f in os.listdir(d + "/output"):
        if f.startswith("2601010001"):
            os.unlink(d + "/output/" + f)


# ------------------------------------------------------------- drawing
def arrows(fig):
    """Tail and tip of every arrow in the picture."""
    res = []
    for ax in fig.axes:
        for p in ax.get_children():
            v = getattr(p, "_verts3d", None)
            if v is not None and hasattr(p, "set_arrowstyle"):
                v = np.array([np.asarray(q, float) for q in v])
                res.append(np.concatenate([v[:, 0], v[:, -1]]))
    return np.array(res).reshape(-1, 6)


def play(d, program, values, w):
    """Run a plotting program with the variables at its top set, its folders
    being those of the scratch directory;
    returns the discs of every picture."""
    os.chdir(d)
    sys.argv = [program]
    sys.path[:] = [SRC] + [p for p in sys.path if p not in (SRC, "")]
    path = SRC + "/plotting/" + program
    tree = ast.parse(open(path, "rb").read())
    left = dict(values)
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and node.targets[0].id in left and \
                isinstance(node.value, ast.Constant):
            node.value = ast.copy_location(ast.Constant(left.pop(node.targets[0].id)),
                                           node.value)
    if left:
        raise sim.Harness("no variable %s in %s" % (sorted(left), program))
    code = compile(tree, path, "exec")
    import matplotlib.pyplot as plt
    from matplotlib import animation
    frames = []

    def look(fig):
        if values.get("view_labels") and len(frames) < 2:
            fig.set_dpi(20)
            fig.canvas.draw()
        return circles(fig), arrows(fig)

    class Look(animation.AbstractMovieWriter):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi = fig, outfile, dpi or 100

        def grab_frame(self, **k):
            frames.append(look(self.fig))

        def finish(self):
            pass

        @classmethod
        def isAvailable(cls):
            return True

    animation.FFMpegWriter = Look
    plt.show = lambda *a, **k: frames.append(look(plt.gcf()))
    if w is not None:
        import settings                                             # noqa
        import functions.shared as fs
        fs.same_setup_as = lambda *a, **k: w.S.posdata(None)
        import setups.inputs as si
        si.input_ftsuoe = w.input_ftsuoe
    warnings.simplefilter("ignore")
    with repo.quiet():
        exec(code, {"__name__": "__main__", "__file__": d + "/plotting/" + program})
    return frames


def circles(fig):
    """Centre and radius of every disc in the picture."""
    res = []
    for ax in fig.axes:
        for p in ax.patches:
            v = getattr(p, "_segment3d", None)
            if v is not None:
                v = np.asarray(v, float)
                lo, hi = v.min(axis=0), v.max(axis=0)
                c = (lo + hi) / 2
                res.append([*c, float(np.linalg.norm(v[0] - c))])
    return np.array(res).reshape(-1, 4)


def discs(rec, k):
    m = rec["deltax"].shape[1]
    X = rec["centres"][k]
    n = len(X) - m
    return np.array([[*x, 1.0] for x in X[:n]] +
                    [[*(X[n + j] + s * rec["deltax"][k, j]), 0.1]
                     for s in (-0.5, 0.5) for j in range(m)]).reshape(-1, 4)


def compare(out, tag, got, want):
    if not out.ok(len(got) == len(want), tag + "|number of discs",
                  "%d instead of %d" % (len(got), len(want))):
        return
    used = np.zeros(len(got), bool)
    for x in want:
        e = np.abs(got - x).max(axis=1) + 1e9 * used
        i = int(np.argmin(e))
        used[i] = True
        out.ok(e[i] < 1e-6, tag + "|place", "nothing drawn at %s (nearest off by %.3g)" % (x, e[i]))


def drawn(case, d, w, name, rec, k, out, labels=False):
    f = attempt(out, "plot_positions", play, d, "plot_positions.py",
                {"filename": name, "frameno": k, "view_labels": labels}, None)
    out.state(case, "plot", k)
    out.edge()
    if f is None:
        return
    out.trace()
    if out.ok(len(f) == 1, "plot_positions|shown", "%d pictures" % len(f)):
        out.outcome(f[0][0])
        compare(out, "plot_positions", f[0][0], discs(rec, k))


def forces(out, arr, rec, k):
    """Every arrow starts at a sphere and is the recorded force to one scale."""
    n = rec["centres"].shape[1] - rec["deltax"].shape[1]
    F = rec["Fa"][min(k, len(rec["Fa"]) - 1)] if n else []
    X = rec["centres"][k, :n]
    seen = 0
    for i in range(n):
        a = [v for v in arr if np.abs(v[:3] - X[i]).max() < 1e-9]
        for v in a:
            seen += 1
            out.close("make_video|force arrow", v[3:] - v[:3], 6 * F[i], 1e-9)
    out.count("force arrows", seen)


def film(case, d, w, name, rec, rng, out, labels=False):
    start, end, every = rng
    N = len(rec["centres"])
    if end > N or start >= N:
        return
    sel = list(range(start, end or N, every))
    sel = sel[:((end or N) - start) // every]
    if not sel:
        return
    f = attempt(out, "make_video", play, d, "make_video.py",
                {"num_frames_override_start": start, "num_frames_override_end": end,
                 "display_every_n_frames": every, "view_labels": labels}, w if case[0] == "record" else None)
    out.state(case, "film", rng)
    if f is None:
        return
    out.trace()
    if not out.ok(len(f) == len(sel), "make_video|number of frames",
                  "%d instead of %d" % (len(f), len(sel))):
        return
    for (got, arr), k in zip(f, sel):
        out.edge()
        out.outcome(got)
        want = discs(rec, k)
        if labels:
            forces(out, arr, rec, k)
        if not (w.box is not None if case[0] == "record" else case[2] == 2):
            compare(out, "make_video", got, want)
            continue
        # a cell and its neighbours: each disc a copy of a recorded one, the
        # recorded ones themselves among them
        out.ok(len(got) % len(want) == 0, "make_video|number of copies")
        for x in want:
            out.ok(np.abs(got - x).max(axis=1).min() < 1e-6, "make_video|place in cell",
                   "nothing drawn at %s" % x)
        if case[0] == "record" and case[2][0] == 1 and case[2][2] == 0:
            inv = np.linalg.inv(w.cell(k * float(case[3])))
            for g in got:
                s = (g[:3] - want[np.abs(want[:, 3] - g[3]) < 1e-9][:, :3]) @ inv
                out.ok(np.abs(s - np.round(s)).max(axis=1).min() < 1e-5,
                       "make_video|place of copy", str(g))
