"""C23: five-component representation of tensors."""
import itertools

import numpy as np

from mc import ref, repo, space

ID = "C23"
BOUNDS = {
    "quick": "every symmetric traceless tensor with independent entries in "
             "{-1,0,2} (3^5) alone, every ordered pair of the 15 basis-like "
             "ones, lists of 0-3 spheres; entry/exit through both input forms",
    "thorough": "entries in {-1,0,0.5,2} (4^5)",
}
ASSUME = ["the conversions are linear, so agreement on a spanning grid fixes "
          "them on all tensors of the same scale"]


def setup():
    repo.load()


def tensor(v):
    a, b, x, y, z = v
    return np.array([[a, x, y], [x, b, z], [y, z, -a - b]], float)


def cases(tier):
    al = (-1, 0, 2) if tier == "quick" else (-1, 0, 0.5, 2)
    out = [["one", list(v)] for v in itertools.product(al, repeat=5)]
    basis = [[int(i == j) * s for j in range(5)] for i in range(5) for s in (1, -1, 3)]
    out += [["pair", [a, b]] for a in basis for b in basis]
    out += [["solve", v] for v in basis[::3] + [[1, 2, -1, 3, 0.5], [0, -1, 1, 0, 2]]]
    out += [["empty", 0]]
    return out


def check(case, out):
    import functions.simulation_tools as st
    import functions.shared as sh
    kind, c = case
    out.state(kind, c)
    if kind == "one":
        t = tensor(c)
        v = np.array(st.condense([t], 1))
        f = np.array(st.condense_and_flatten(np.array([t]), 1))
        out.edge(3)
        out.trace()
        out.outcome(v)
        out.close("condense", v, [ref.c5(t)], 1e-12, 1e-13)
        out.close("flatten", f, ref.c5(t), 1e-12, 1e-13)
        out.close("roundtrip", st.uncondense(v, 1), [t], 1e-12, 1e-13)
        out.close("roundtrip-flat", st.uncondense(f.reshape(1, 5), 1), [t], 1e-12, 1e-13)
        # and from the five-component side
        w = np.array([c], float)
        u = st.uncondense(w, 1)
        out.close("symmetric", u[0], u[0].T, 1e-13, 1e-14)
        out.ok(abs(np.trace(u[0])) < 1e-12, "traceless", repr(u))
        out.close("back", st.condense(u, 1), w, 1e-12, 1e-13)
        out.close("uncondense", u[0], ref.u5(w[0]), 1e-12, 1e-13)
    elif kind == "pair":
        a, b = tensor(c[0]), tensor(c[1])
        v = np.array(st.condense([a, b], 2))
        out.edge()
        out.trace()
        out.close("inner", v[0] @ v[1], np.sum(a * b), 1e-12, 1e-12)
        f = np.array(st.condense_and_flatten(np.array([a, b]), 2))
        out.close("order", f, np.concatenate([ref.c5(a), ref.c5(b)]), 1e-12, 1e-13)
        out.close("order-back", st.uncondense(f.reshape(2, 5), 2), [a, b], 1e-12, 1e-13)
        # the matrix and index forms used by the assembly act the same way
        if hasattr(sh, "cond_idx") and hasattr(sh, "cond_E"):
            x = np.array([a[i] for i in sh.cond_idx])
            out.close("matrix-form", sh.cond_E @ x, ref.c5(a), 1e-12, 1e-13)
        if hasattr(sh, "contraction"):
            con = np.array([sum(sh.contraction(i, j, k) * a[j][k] for j in range(3)
                                for k in range(3)) for i in range(5)])
            out.close("symbol", con, ref.c5(a), 1e-12, 1e-13)
    elif kind == "solve":
        t = tensor(c)
        for n in (1, 2, 3):
            S = ref.System([1.0] * n, [[30.0 * i, 5.0 * i, 0] for i in range(n)])
            E = [((i + 1) * t).tolist() for i in range(n)]
            r = repo.solve(S, "fte", {"Fa": [[0, 0, 0]] * n, "Ta": [[0, 0, 0]] * n, "Ea": E})
            q = repo.solve(S, "fts", {"Fa": [[0, 0, 0]] * n, "Ta": [[0, 0, 0]] * n,
                                      "Sa": r["Sa"].tolist()})
            out.edge(2)
            out.trace()
            out.outcome(r["Sa"])
            out.close("solve-lone" if n == 1 else "solve-dilute", r["Sa"],
                      20 / 3 * np.pi * np.array(E), 1e-9 if n == 1 else 1e-2, 1e-12)
            out.close("solve-back", q["Ea"], E, 1e-8, 1e-12)
            # power is the same in either representation
            p5 = np.sum(ref.c5(r["Sa"]) * ref.c5(np.array(E)))
            out.close("power", np.sum(r["Sa"] * np.array(E)), p5, 1e-10, 1e-12)
    else:
        out.ok(len(st.condense([], 0)) == 0, "empty", "")
        out.ok(np.shape(st.uncondense(np.zeros((0, 5)), 0)) == (0, 3, 3), "empty-back", "")
        out.edge()
