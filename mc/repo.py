"""In-process access to the code under test (interpreted, quiet)."""
import contextlib
import io
import os
import sys

import numpy as np

from mc.core import SRC

ZERO3 = np.zeros(3)


def load(argv=()):
    """Put /repo on the import path and import settings."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.argv = ["run_simulation.py"] + [str(a) for a in argv]
    with quiet():
        import settings
    return settings


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def dense(M):
    M = M.toarray() if hasattr(M, "toarray") else M
    return np.asarray(M, float)


def Minf(S, mu=1):
    from functions.generate_Minfinity import generate_Minfinity
    with quiet():
        return dense(generate_Minfinity(S.posdata(), mu=mu)[0])


def R2B(S, cutoff=2, mu=1, box=None, Ot=None, Et=None):
    from functions.generate_R2Bexact import generate_R2Bexact
    kw = {}
    if box is not None:
        bl, tr = box
        kw = dict(box_bottom_left=np.array(bl), box_top_right=np.array(tr),
                  Ot_infinity=np.array(Ot if Ot is not None else [0, 0, 0]),
                  Et_infinity=np.array(Et if Et is not None else np.zeros((3, 3))))
    with quiet():
        return dense(generate_R2Bexact(S.posdata(), cutoff_factor=cutoff, mu=mu,
                                       **kw)[0])


def Minf_periodic(S, box, mu=1, Ot=None, Et=None):
    from functions.generate_Minfinity_periodic import generate_Minfinity_periodic
    bl, tr = box
    with quiet():
        return dense(generate_Minfinity_periodic(
            S.posdata(), np.array(bl, float), np.array(tr, float), mu=mu,
            Ot_infinity=np.array(Ot if Ot is not None else [0., 0, 0]),
            Et_infinity=np.array(Et if Et is not None else np.zeros((3, 3))))[0])


def grandR(S, mu=1, cutoff=2, **kw):
    from functions.generate_grand_resistance_matrix import (
        generate_grand_resistance_matrix)
    with quiet():
        r = generate_grand_resistance_matrix(
            S.posdata(), np.array([0]), regenerate_Minfinity=True,
            cutoff_factor=cutoff, mu=mu, **kw)
    return dense(r[0])


def grandR_periodic(S, box, mu=1, cutoff=2, Ot=None, Et=None, **kw):
    from functions.generate_grand_resistance_matrix import (
        generate_grand_resistance_matrix_periodic)
    bl, tr = box
    with quiet():
        r = generate_grand_resistance_matrix_periodic(
            S.posdata(), np.array([0]), np.array(bl, float), np.array(tr, float),
            regenerate_Minfinity=True, cutoff_factor=cutoff, mu=mu,
            Ot_infinity=np.array(Ot if Ot is not None else [0., 0, 0]),
            Et_infinity=np.array(Et if Et is not None else np.zeros((3, 3))), **kw)
    return dense(r[0])


NAMES = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HalfDUb")


def solve(S, form, data, mu=1, U_inf=ZERO3, O_inf=ZERO3, centre=ZERO3, box=None,
          Ot=None, Et=None, cutoff=2, frameno=0, timestep=0.1, extract=False,
          last_vel=None, **kw):
    """Call generate_output_FTSUOE with the given prescribed data.

    data maps Fa, Ta, Sa, Fb, DFb, Ua, Oa, Ea, Ub, HalfDUb to lists; entries
    not given keep the placeholder the package itself uses.
    """
    import functions.timestepping as ts
    from functions.simulation_tools import empty_vectors

    def fake(n, posdata, *a, **k):
        v = list(empty_vectors(posdata))
        pos = {"Fa": 0, "Ta": 1, "Sa": 2, "Fb": 4, "DFb": 5, "Ua": 6, "Oa": 7,
               "Ea": 8, "Ub": 10, "HalfDUb": 11}
        for name, val in data.items():
            for i, x in enumerate(val):
                if x is not None:
                    v[pos[name]][i] = np.asarray(x, float).tolist()
        bl, tr = box if box is not None else (ZERO3, ZERO3)
        return (*v, "desc", np.array(U_inf), np.array(O_inf), np.array(centre),
                np.array(Ot if Ot is not None else [0, 0, 0]),
                np.array(Et if Et is not None else np.zeros((3, 3))),
                np.array(bl), np.array(tr), mu)

    old = ts.input_ftsuoe
    ts.input_ftsuoe = fake
    try:
        with quiet():
            r = ts.generate_output_FTSUOE(
                S.posdata(), frameno, timestep, 1,
                np.array([0]), True, form, cutoff, 0,
                kw.get("use_drag_Minfinity", False),
                kw.get("use_Minfinity_only", False), extract,
                last_vel if last_vel is not None else [0, 0, 0, 0, 0],
                np.zeros(S.size))
    finally:
        ts.input_ftsuoe = old
    res = {k: np.asarray(v, float) for k, v in zip(NAMES, r[:10])}
    res["Minf_inv"] = r[10]
    res["raw"] = r
    return res
