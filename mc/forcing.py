"""Prescribed data patterns for every input form."""
import numpy as np

PSEUDO = ("Ta", "Oa")
TENSOR = ("Sa", "Ea")


def forms_for(n, m):
    """(form, fixed spheres, fixed dumbbells) usable with n spheres and m
    dumbbells."""
    out = []
    if n:
        out += [["fte", 0, 0]]
        out += [["ufte", k, 0] for k in range(0, n + 1)]
        if m:
            out += [["ufteu", k, l] for k in range(0, n + 1) for l in range(0, m + 1)]
    else:
        out += [["duf", 0, l] for l in range(0, m + 1)]
    out += [["fts", 0, 0]]
    return out


def vec(kind, i, pat):
    """Deterministic vector: pattern 0 generic, 1 axis-aligned with zeros,
    2 all zero, 3 another generic one (for superposition)."""
    s = {"Fa": 1, "Ta": 2, "Fb": 3, "DFb": 4, "Ua": 5, "Oa": 6, "Ub": 7,
         "HalfDUb": 8}[kind]
    if pat == 2:
        return [0.0, 0.0, 0.0]
    if pat == 1:
        v = [0.0, 0.0, 0.0]
        v[(s + i) % 3] = -1.0 if (s + i) % 2 else 2.0
        return v
    ph = 0.37 * s + 1.1 * i + (1.7 if pat == 3 else 0)
    return [float(np.sin(ph + 1)), float(np.cos(2 * ph)), float(np.sin(3 * ph + 0.5))]


def tens(kind, i, pat):
    if pat == 2:
        return np.zeros((3, 3)).tolist()
    if pat == 1:
        # the usual case: one simple shear for all spheres
        return [[0, 0, 0.5], [0, 0, 0], [0.5, 0, 0]]
    s = {"Sa": 11, "Ea": 12}[kind]
    ph = 0.21 * s + 0.9 * i + (0.8 if pat == 3 else 0)
    a, b = np.sin(ph), np.cos(3 * ph)
    x, y, z = np.sin(5 * ph), np.cos(ph + 1), np.sin(2 * ph)
    return [[a, x, y], [x, b, z], [y, z, -a - b]]


def prescribe(S, form, ks, kd, pat):
    """The data dictionary for a form; entries left out stay placeholders."""
    n, m = S.n, S.m
    d = {}
    if form in ("fte", "fts"):
        d["Fa"] = [vec("Fa", i, pat) for i in range(n)]
        d["Ta"] = [vec("Ta", i, pat) for i in range(n)]
        k = "Ea" if form == "fte" else "Sa"
        d[k] = [tens(k, i, pat) for i in range(n)]
        d["Fb"] = [vec("Fb", i, pat) for i in range(m)]
        d["DFb"] = [vec("DFb", i, pat) for i in range(m)]
    elif form in ("ufte", "ufteu"):
        d["Ua"] = [vec("Ua", i, pat) if i < ks else None for i in range(n)]
        d["Fa"] = [vec("Fa", i, pat) if i >= ks else None for i in range(n)]
        d["Ta"] = [vec("Ta", i, pat) for i in range(n)]
        d["Ea"] = [tens("Ea", i, pat) for i in range(n)]
        d["Ub"] = [vec("Ub", i, pat) if i < kd else None for i in range(m)]
        d["HalfDUb"] = [vec("HalfDUb", i, pat) if i < kd else None for i in range(m)]
        d["Fb"] = [vec("Fb", i, pat) if i >= kd else None for i in range(m)]
        d["DFb"] = [vec("DFb", i, pat) if i >= kd else None for i in range(m)]
    elif form == "duf":
        d["Ub"] = [vec("Ub", i, pat) if i < kd else None for i in range(m)]
        d["HalfDUb"] = [vec("HalfDUb", i, pat) if i < kd else None for i in range(m)]
        d["Fb"] = [vec("Fb", i, pat) if i >= kd else None for i in range(m)]
        d["DFb"] = [vec("DFb", i, pat) if i >= kd else None for i in range(m)]
    return {k: v for k, v in d.items() if v}


def _tr(k, x, Q, det):
    x = np.asarray(x, float)
    if k in TENSOR:
        return np.einsum("ij,...jk,lk->...il", Q, x, Q)
    return (det if k in PSEUDO else 1) * x @ Q.T


def transform_data(d, Q):
    det = round(np.linalg.det(Q))
    return {k: [None if x is None else _tr(k, x, Q, det).tolist() for x in v]
            for k, v in d.items()}


def transform_out(r, Q):
    det = round(np.linalg.det(Q))
    return {k: _tr(k, v, Q, det) for k, v in r.items()
            if k in ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HalfDUb")
            and np.size(v)}


def combine(d1, d2, a, b):
    return {k: [None if x is None else (a * np.asarray(x) + b * np.asarray(y)).tolist()
                for x, y in zip(d1[k], d2[k])] for k in d1}
