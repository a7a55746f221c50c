"""C27: what is shown or printed does not alter what is computed."""
import itertools

import numpy as np

from mc import ref, sim
from mc.props.c10 import form
from mc.props.c24 import circles, compare
from mc.world import World

ID = "C27"
MIX = {
    "1s": ref.System([1.0], [[0.3, -0.2, 0.5]]),
    "2s": ref.System([1.0, 0.1], [[0.3, -0.2, 0.5], [-1.0, 0.0, 0.6]]),
    "1d": ref.System([], [], [0.1], [[0.4, 0.2, -0.6]], [[0.17, -0.2, 0.16]]),
    "2s2d": ref.System([1.0, 1.0], [[0.3, -0.2, 0.5], [-1.9, 0.4, 0.6]], [0.1, 0.1],
                       [[1.5, -0.1, 0.3], [0.2, 1.2, 0.4]],
                       [[0.17, -0.2, 0.16], [0.0, 0.26, -0.15]]),
}
BOUNDS = {
    "quick": "4 mixtures x 3 schemes x 1-3 frames, free and periodic, saved every 1-2 "
             "frames, each with every printing level 0-3, with the picture window on "
             "and off, labels, traces every 0-2 frames, flat view and completion mail; "
             "mode combinations at every printing level; a resumed run with pictures",
    "thorough": "the full product of the display settings",
}
ASSUME = ["the picture window is a stand-in that asks for each frame in turn, once",
          "the mail server is a stand-in"]
KEYS = ("centres", "deltax", "sphere_rotations", "Fa", "Fb", "DFb", "Sa",
        "force_on_wall_due_to_dumbbells")
SHOW = [dict(view_graphics=True), dict(view_graphics=True, view_labels=True),
        dict(view_graphics=True, trace_paths=1), dict(view_graphics=True, trace_paths=2),
        dict(view_graphics=True, two_d_plot=True), dict(email_on_completion=True),
        dict(printout=1), dict(printout=2), dict(printout=3),
        dict(view_graphics=True, printout=3, view_labels=True, trace_paths=1)]


def setup():
    sim.preload()
    import matplotlib.pyplot, matplotlib.animation                  # noqa
    import mpl_toolkits.mplot3d                                     # noqa


def cases(tier):
    out = []
    show = SHOW if tier == "quick" else [
        dict(view_graphics=g, view_labels=v, trace_paths=t, two_d_plot=d, printout=p)
        for g, v, t, d, p in itertools.product((True, False), (False, True), (0, 1, 2),
                                               (False, True), range(4))]
    for mix, sch, n in itertools.product(MIX, ("euler", "ab2", "rk4"), (1, 2, 3)):
        out.append(["show", mix, sch, n, False, 1 + (n == 3), {}, show])
    for mix in MIX:
        out.append(["show", mix, "euler", 1, True, 1, {}, SHOW])
    for drag, far, inv in itertools.product((False, True), (False, True), (1, 2)):
        out.append(["show", "2s2d", "euler", 3, False, 1, dict(
            use_drag_Minfinity=drag, use_Minfinity_only=far, invert_m_every=inv), SHOW])
    out += [["resume", mix, sch] for mix in MIX for sch in ("euler", "ab2", "rk4")]
    return out


def window(res):
    """Stands in for a window that plays an animation once."""
    import matplotlib.pyplot as plt
    from matplotlib import animation
    import smtplib
    waiting = []
    res["pics"] = []
    res["mails"] = 0

    class Play:
        def __init__(self, fig, func, frames=None, init_func=None, fargs=None, **k):
            waiting.append((fig, func, frames, init_func, fargs or ()))

    def show(*a, **k):
        while waiting:
            fig, func, frames, init, fargs = waiting.pop()
            if init is not None:
                init()
            for f in (range(frames) if isinstance(frames, int) else frames):
                func(f, *fargs)
                res["pics"].append(circles(fig))
                if len(res["pics"]) == 1:
                    fig.set_dpi(20)
                    fig.canvas.draw()

    class Mail:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, name):
            def f(*a, **k):
                if name == "sendmail":
                    res["mails"] += 1
            return f

    animation.FuncAnimation = Play
    plt.show = show
    smtplib.SMTP = Mail


def run(w, argv, st, d, **kw):
    return sim.run(w.spec(argv, st, early=window, **kw), d)


def final(d):
    r = sim.records(d)
    return [v for k, v in r.items() if "_TEMP" not in k], [k for k in r if "_TEMP" in k]


def equal(out, tag, a, b, S):
    for k in KEYS:
        out.ok(k in a and k in b and np.array_equal(a[k], b[k]), tag + "|" + k,
               "%s\n%s" % (a.get(k), b.get(k)))


def discs(p):
    x = [[*c, a] for c, a in zip(p[1], p[0])]
    for c, e, a in zip(p[4], p[5], p[3]):
        x += [[*(c - e / 2), a], [*(c + e / 2), a]]
    return np.array(x).reshape(-1, 4)


def check(case, out):
    if case[0] == "resume":
        return resumed(case, out)
    _, mix, sch, n, per, every, modes, shows = case
    S = MIX[mix]
    w = World(S, "shear" if per else "general", [8.0] * 3 if per else None, real=True)
    argv = [8, 1, 0.02, n, form(S)]
    base = dict(modes, timestepping_scheme=sch, save_positions_every_n_timesteps=every)
    want = None
    for show in [{}] + shows:
        d = sim.workdir()
        try:
            r = run(w, argv, dict(base, **show), d)
            tag = "+".join("%s=%s" % kv for kv in sorted(show.items())) or "plain"
            out.state(case[:7], tag)
            out.edge(len(r["trace"]))
            if not sim.check_ended(out, r, tag):
                if want is None:
                    return
                continue
            out.trace()
            recs, temps = final(d)
            if not out.ok(len(recs) == 1 and recs[0] is not None and not temps,
                          tag + "|files", "%d records, backups %s" % (len(recs), temps)):
                continue
            rec = recs[0]
            out.outcome(rec["centres"])
            if want is None:
                want = rec
                continue
            equal(out, tag, rec, want, S)
            out.ok(r["mails"] == int(bool(show.get("email_on_completion"))), tag + "|mail",
                   "%d sent" % r["mails"])
            if show.get("view_graphics") and n > 1:
                # a picture per frame, of the particles where the frame left them
                out.ok(len(r["pics"]) == n, tag + "|pictures", str(len(r["pics"])))
                st = 4 if sch == "rk4" else 1
                for f, got in enumerate(r["pics"][:-1]):
                    compare(out, "picture", got, discs(r["trace"][(f + 1) * st]["pos"]))
        finally:
            sim.drop(d)


def resumed(case, out):
    """Interrupted, then resumed with pictures, against never interrupted."""
    _, mix, sch = case
    S = MIX[mix]
    w = World(S, "general", None, real=True)
    argv = [8, 1, 0.02, 5, form(S)]
    st = dict(timestepping_scheme=sch, save_to_temp_file_every_n_timesteps=1)
    d, e = sim.workdir(), sim.workdir()
    try:
        r = run(w, argv, st, d)
        if not sim.check_ended(out, r):
            return
        per = 4 if sch == "rk4" else 1
        run(w, argv, st, e, stop_at_call=3 * per)
        show = dict(st, view_graphics=True, view_labels=True, trace_paths=1)
        r = run(w, argv, show, e)
        out.state(case)
        out.edge(len(r["trace"]))
        if not sim.check_ended(out, r):
            return
        out.trace(2)
        a, b = final(d)[0], final(e)[0]
        if out.ok(len(b) == 1 and b[0] is not None, "resume|files", str(len(b))):
            equal(out, "resume", b[0], a[0], S)
            out.outcome(b[0]["centres"])
    finally:
        sim.drop(d)
        sim.drop(e)
