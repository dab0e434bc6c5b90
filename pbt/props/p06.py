"""Slab: the matrices of the moving-cell discretisation."""
import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, st

RULE = "M >= 2 and a cell whose two edges move at different speeds"
ASSUMPTIONS = ["Cells of positive width."]


def obj(M, geom="slab", K=11):
    return lab.make_matrices(lab.make_build(dict(geom=geom, M=M, N_ang=4)), K)


def cells(d):
    for x, w, ap, bp in d["cells"]:
        yield x, x + w, ap, bp


def by_quadrature(d):
    """L_ij = integral of B_i' B_j, G_ij = integral of (dB_i/dt) B_j."""
    m = obj(d["M"])
    K = d["M"] + 1
    hit = False
    for a, b, ap, bp in cells(d):
        m.make_all_matrices(a, b, ap, bp)
        L, G = ref.slab_mats(K, a, b, ap, bp)
        close(np.array(m.L), L, f"L on [{a},{b}]", 1e-9, 1e-10)
        close(np.array(m.G), G, f"G on [{a},{b}], speeds {ap},{bp}", 1e-9,
              1e-10)
        hit = hit or ap != bp
    return hit and d["M"] >= 2


def identities(d):
    """Independent of quadrature: integration by parts and the transport
    theorem fix L + L^T and G + G^T from the values on the edges."""
    m = obj(d["M"])
    K = d["M"] + 1
    hit = False
    for a, b, ap, bp in cells(d):
        m.make_all_matrices(a, b, ap, bp)
        L, G = np.array(m.L), np.array(m.G)
        i = np.arange(K)
        R = np.sqrt((2 * i + 1) / (b - a))
        Lf = R * (-1.0) ** i
        close(L + L.T, np.outer(R, R) - np.outer(Lf, Lf),
              f"integration by parts on [{a},{b}]", 1e-10)
        close(G + G.T, ap * np.outer(Lf, Lf) - bp * np.outer(R, R),
              f"transport theorem on [{a},{b}]", 1e-10, 1e-10)
        # a rigidly moving cell: d/dt = -speed d/dx
        m.make_all_matrices(a, b, ap, ap)
        close(np.array(m.G), -ap * L, "rigid motion", 1e-10, 1e-12)
        hit = hit or ap != bp
    return hit and d["M"] >= 2


cell = st.lists(st.tuples(num(-5, 5), num(0.001, 4), num(-2, 2, 0.1),
                          num(-2, 2, 0.1)).map(list), min_size=1, max_size=4)
CHECKS = [
    Check("by_quadrature", case(M=ints(0, 11), cells=cell), by_quadrature,
          quick=1200),
    Check("identities", case(M=ints(0, 11), cells=cell), identities,
          quick=1200),
]
