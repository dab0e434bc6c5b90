"""Sphere: the matrices of the moving-shell discretisation."""
import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, st
from .p06 import cells, obj

RULE = "M >= 2 and a shell whose two edges move at different speeds"
ASSUMPTIONS = [
    "M at most 10, the range of the tabulated matrices.",
    "The coefficient tables the solver reads from matrix_files are not in the "
    "repository; the checks supply tables computed from the definitions.",
]


def by_quadrature(d):
    """Mass, J, L, G, and d(Mass)/dt against numerical integration."""
    m = obj(d["M"], "sphere")
    K = d["M"] + 1
    hit = False
    for a, b, ap, bp in cells(d):
        m.make_all_matrices(a, b, ap, bp)
        want = ref.sphere_mats(K, a, b, ap, bp)
        for name, w in zip(("Mass", "J", "L", "G", "MPRIME"), want):
            close(np.array(getattr(m, name))[:K, :K], w,
                  f"{name} on [{a},{b}], speeds {ap},{bp}", 1e-7, 1e-9)
        hit = hit or ap != bp
    return hit and d["M"] >= 2


def entries(d):
    """The same entry by entry: each of the (M+1)^2 formulas is separate."""
    m = obj(d["M"], "sphere")
    K = d["M"] + 1
    a, b, ap, bp = next(iter(cells(d)))
    m.make_all_matrices(a, b, ap, bp)
    want = ref.sphere_mats(K, a, b, ap, bp)
    for name, w in zip(("Mass", "J", "L", "G", "MPRIME"), want):
        g = np.array(getattr(m, name))[:K, :K]
        # cancellation in the formulas is relative to their own terms
        scale = (a * a + b * b) * (1 + (abs(ap) + abs(bp)) / (b - a))
        err = np.abs(g - w) / scale
        if np.max(err) > 1e-7:
            i, j = np.unravel_index(np.argmax(err), err.shape)
            fail(f"{name}[{i},{j}] on [{a},{b}], speeds {ap},{bp}: "
                 f"{g[i, j]}, not {w[i, j]}")
    return ap != bp and d["M"] >= 2


def identities(d):
    """Integration by parts and the transport theorem with the weight r^2."""
    m = obj(d["M"], "sphere")
    K = d["M"] + 1
    hit = False
    for a, b, ap, bp in cells(d):
        m.make_all_matrices(a, b, ap, bp)
        M, J, L, G, P = (np.array(getattr(m, n))[:K, :K] for n in
                         ("Mass", "J", "L", "G", "MPRIME"))
        R = np.array([float(ref.cheb(i, b, a, b)) for i in range(K)])
        Lf = np.array([float(ref.cheb(i, a, a, b)) for i in range(K)])
        close(M, M.T, "mass matrix is symmetric", 1e-9, 1e-12)
        if np.min(np.linalg.eigvalsh(0.5 * (M + M.T))) <= 0:
            fail(f"mass matrix on [{a},{b}] is not positive definite")
        close(L + L.T + 2 * J, b * b * np.outer(R, R) - a * a *
              np.outer(Lf, Lf), f"integration by parts on [{a},{b}]", 1e-7,
              1e-9)
        close(P, G + G.T + bp * b * b * np.outer(R, R) - ap * a * a *
              np.outer(Lf, Lf), f"transport theorem on [{a},{b}]", 1e-7, 1e-9)
        h = 1e-5 * (b - a)
        m.make_all_matrices(a + h * ap, b + h * bp, ap, bp)
        hi = np.array(m.Mass)[:K, :K]
        m.make_all_matrices(a - h * ap, b - h * bp, ap, bp)
        lo = np.array(m.Mass)[:K, :K]
        close(P, (hi - lo) / (2 * h), "rate of the mass matrix", 1e-4, 1e-4)
        hit = hit or ap != bp
    return hit and d["M"] >= 2


# shells not much thinner than their radius: the formulas divide by (b - a)
cell = st.lists(st.tuples(num(0, 4), num(0.05, 3), num(-2, 2, 0.1),
                          num(-2, 2, 0.1)).map(list), min_size=1, max_size=3)
M = st.integers(0, 10)
CHECKS = [
    Check("by_quadrature", case(M=M, cells=cell), by_quadrature, quick=800),
    Check("entries", case(M=st.integers(6, 10), cells=cell), entries,
          quick=400),
    Check("identities", case(M=M, cells=cell), identities, quick=600),
]
