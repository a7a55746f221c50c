"""Runs the real run_simulation.py, each run in a fresh forked process.

The process that forks has the third-party libraries loaded but none of the
code under test, so each run imports /repo's working tree afresh.  Positions
are fed in through the shipped "same setup as a file" setup (number 8), forces
and flow through input_ftsuoe.  Optionally the hydrodynamic solve is replaced
by a prescribed velocity field, leaving time stepping, wrapping, saving and
resuming to the real code.
"""
import inspect
import io
import os
import pickle
import runpy
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from mc import core
from mc.core import SCRATCH, SRC


# leading arguments of generate_output_FTSUOE, should they be renamed
ARGS = ("posdata", "frameno", "timestep", "input_number", "last_generated_Minfinity_inverse",
        "regenerate_Minfinity")


class Harness(Exception):
    pass


def preload():
    import datetime, glob, math, smtplib, socket, textwrap          # noqa
    import matplotlib                                               # noqa
    matplotlib.use("Agg")
    import numba, psutil                                            # noqa
    import numpy.linalg                                             # noqa
    try:
        import scipy.interpolate, scipy.sparse, scipy.linalg        # noqa
    except ImportError:
        pass


def compiled():
    """Switch compilation on for this process."""
    import numba
    os.environ["NUMBA_DISABLE_JIT"] = "0"
    numba.config.DISABLE_JIT = 0


def workdir():
    d = tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
    os.mkdir(os.path.join(d, "output"))
    return d


def drop(d):
    shutil.rmtree(d, ignore_errors=True)


class Crash(BaseException):
    pass


def _install_crash(plan, log):
    """Number every file operation and stop the process at the chosen one.

    plan is [index, mode], mode one of before / torn / after."""
    real = {"savez_compressed": np.savez_compressed, "savez": np.savez,
            "save": np.save, "replace": os.replace, "rename": os.rename,
            "remove": os.remove, "unlink": os.unlink}
    busy = [False]

    def wrap(name):
        fn = real[name]

        def g(*a, **k):
            if busy[0] or not str(a[0]).startswith(("output", os.getcwd())):
                return fn(*a, **k)
            busy[0] = True
            i = len(log)
            log.append((name, str(a[0])))
            hit = plan is not None and plan[0] == i
            if hit and plan[1] == "before":
                raise Crash()
            r = fn(*a, **k)
            if hit and plan[1] == "torn" and name.startswith("save"):
                p = str(a[0])
                if not os.path.exists(p):
                    p += ".npz" if name.startswith("savez") else ".npy"
                n = os.path.getsize(p)
                os.truncate(p, int(n * plan[2]))
                raise Crash()
            if hit:
                raise Crash()
            busy[0] = False
            return r
        return g

    np.savez_compressed, np.savez, np.save = map(wrap, ("savez_compressed", "savez", "save"))
    os.replace, os.rename, os.remove, os.unlink = map(
        wrap, ("replace", "rename", "remove", "unlink"))


def _child(spec, cwd):
    os.chdir(cwd)
    sys.argv = ["run_simulation.py"] + [str(a) for a in spec.get("argv", [])]
    sys.path[:] = [SRC] + [p for p in sys.path if p not in (SRC, "")]
    res = {"trace": [], "ops": []}
    buf = io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = buf
    sys.stdin = io.StringIO("\n" * 20)
    stamp = spec.get("stamp", "2601010000")
    strf = time.strftime
    time.strftime = lambda f, *a: stamp if f == "%y%m%d%H%M" and not a else strf(f, *a)
    try:
        if spec.get("jit"):
            compiled()
        if spec.get("early"):
            spec["early"](res)
        import settings
        res["settings_before"] = {k: v for k, v in vars(settings).items()
                                  if isinstance(v, (int, float, str, bool, tuple))
                                  and not k.startswith("__")}
        if spec.get("jit"):
            compiled()      # as if settings.py itself asked for it
        for k, v in spec.get("settings", {}).items():
            setattr(settings, k, v)
        if "view_graphics" not in spec.get("settings", {}):
            settings.view_graphics = False
        if spec.get("system") is not None:
            import functions.shared as fs
            S = spec["system"]
            fs.same_setup_as = lambda *a, **k: S.posdata(spec.get("rotations"))
        if spec.get("input") is not None:
            import setups.inputs as si
            si.input_ftsuoe = spec["input"]
        import functions.timestepping as ts
        orig = ts.generate_output_FTSUOE
        sig = inspect.signature(orig)

        def spy(*a, **k):
            b = sig.bind(*a, **k)
            g = dict(zip(ARGS, b.arguments.values()))
            g.update(b.arguments)
            if spec.get("stop_at_call") is not None and \
                    spec["stop_at_call"] == len(res["trace"]):
                raise Crash()
            pd = tuple(np.array(x, float) for x in g["posdata"])
            row = {"pos": pd, "frame": float(g["frameno"]), "dt": float(g["timestep"]),
                   "regen": bool(g["regenerate_Minfinity"])}
            res["trace"].append(row)
            if spec.get("solver") is not None:
                r = spec["solver"](pd, g["frameno"], g["timestep"])
            else:
                r = orig(*a, **k)
            row["out"] = [np.array(x, float) if not isinstance(x, list) or
                          i < 10 else x for i, x in enumerate(r[:10])]
            return r

        ts.generate_output_FTSUOE = spy
        if spec.get("patch"):
            spec["patch"](res)
        _install_crash(spec.get("crash"), res["ops"])
        g = runpy.run_path(SRC + "/run_simulation.py", run_name="__main__")
        res["end"] = "complete"
        res["filename"] = g.get("filename")
    except Crash:
        res["end"] = "crash"
    except SystemExit as e:
        res["end"] = "exit"
        res["code"] = e.code
    except BaseException as e:
        tb = e.__traceback__
        res["end"] = "error"
        res["type"] = type(e).__name__
        res["in_repo"] = core.in_repo(tb)
        res["site"] = core.repo_site(tb) if res["in_repo"] else ""
        res["text"] = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
    finally:
        sys.stdout, sys.stderr = so, se
    res["stdout"] = buf.getvalue()
    return res


def isolated(fn, *args):
    """Call fn in a forked process and return its (picklable) result."""
    if "settings" in sys.modules:
        raise Harness("code under test already imported in this process")
    fd, path = tempfile.mkstemp(prefix="res-", dir=SCRATCH)
    os.close(fd)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.setpgid(0, 0)
            core.die_with_parent()
            res = fn(*args)
            with open(path, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
        pid = None
        if st != 0:
            raise Harness("simulation process ended with status %d" % st)
        with open(path, "rb") as f:
            return pickle.load(f)
    finally:
        if pid is not None:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        os.unlink(path)


def run(spec, cwd):
    """Run once; returns the result dictionary."""
    return isolated(_child, spec, cwd)


def aside(fn, case, out):
    """Explore a case in a process of its own and merge what it found."""
    def go():
        o = core.Out()
        core._MOD, old = None, core._MOD
        try:
            fn(case, o)
        except BaseException as e:
            tb = e.__traceback__
            if not core.in_repo(tb):
                raise
            o.fail("exception|%s@%s" % (type(e).__name__, core.repo_site(tb)),
                   "".join(traceback.format_exception(type(e), e, tb))[-3000:])
        finally:
            core._MOD = old
        return o
    out.merge(isolated(go))


def records(cwd):
    """Every file in output/, loaded (None when unreadable)."""
    out = {}
    d = os.path.join(cwd, "output")
    for n in sorted(os.listdir(d)):
        try:
            with np.load(os.path.join(d, n)) as z:
                out[n] = {k: z[k] for k in z.files}
        except Exception:
            out[n] = None
    return out


def check_ended(out, r, key="run"):
    """Report a run that did not complete."""
    if r["end"] == "complete":
        return True
    if r["end"] == "error":
        if not r["in_repo"]:
            raise Harness(r["text"])
        out.fail("exception|%s@%s" % (r["type"], r["site"]), r["text"])
    else:
        out.fail(key + "|refused", str(r.get("code")) + r["stdout"][-500:])
    return False
