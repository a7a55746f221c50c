"""Starts one check in a clean environment and cleans up after it.

The worker runs with the compile caches, plotting configuration and working
directory inside a scratch folder that is removed afterwards, so a run depends
on nothing but /repo's working tree and leaves nothing behind.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LIMIT = {"quick": 840, "thorough": 6 * 3600}


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    if not args:
        print("usage: check <property> [quick|thorough] | replay <artefact>")
        return 2
    tier = (args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick"))
    scratch = tempfile.mkdtemp(prefix="mcheck-")
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    env.update({
        "MC_SCRATCH": scratch,
        "MC_TIER": tier,
        "NUMBA_DISABLE_JIT": "1",
        "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "MPLBACKEND": "Agg",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "PYTHONHASHSEED": "0",
        "PYTHONUNBUFFERED": "1",
        "MC_ARG": os.path.abspath(args[0]) if mode == "replay" else args[0],
    })
    work = os.path.join(scratch, "cwd")
    os.makedirs(os.path.join(work, "output"))
    for d in ("numba", "mpl", "pyc"):
        os.makedirs(os.path.join(scratch, d))
    proc = subprocess.Popen(
        [sys.executable, "-c",
         "import sys; sys.path.insert(0, %r); from mc import core; "
         "sys.exit(core.main(%r))" % (VERIF, mode)],
        cwd=work, env=env, start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        return proc.wait(timeout=LIMIT.get(tier, 840))
    except subprocess.TimeoutExpired:
        print("check timed out", flush=True)
        return 3
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
