"""The initial condition as the solver starts from it."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely

RULE = "a non-zero initial condition on two or more cells with M >= 1"
ASSUMPTIONS = [
    "Cells cut by the rim of a discontinuous pulse are compared only through "
    "the accuracy of the spatial quadrature.",
    "A static plane pulse has an even number (four or more) of cells.",
    "Slab square meshes have a multiple of four cells; the self-similar pulse "
    "runs on its thick mesh.",
    "Sphere: the pulses the code supports (point pulse and uniform ball).",
]
SRC = {"plane": (1, 0, 0, 0, 0, 0), "square": (0, 1, 0, 0, 0, 0),
       "square_source": (0, 0, 1, 0, 0, 0), "gaussian": (0, 0, 0, 1, 0, 0),
       "mms": (0, 0, 0, 0, 1, 0), "gaussian_source": (0, 0, 0, 0, 0, 1),
       "noniso": (0, 0, 0, 1, 0, 0, 1), "self_sim": (3, 0, 0, 0, 0, 0)}


def par(d, **kw):
    p = dict(geom="slab", N_ang=d["ang"], N_space=d["N"], M=d["M"],
             tfinal=d["tf"], x0=d["x0"], t0=1.0, sigma=d["sigma"],
             source=SRC[d["kind"]], moving=bool(d["moving"]),
             source_strength=d["q"], uncollided=bool(d["unc"]), xs_order=48)
    if d["kind"] == "plane":
        p["x0"] = d["x0"] * 1e-6
    if d["kind"] == "self_sim":
        p.update(thick=1, x0=0.03 * d["x0"])
    if d["kind"] in ("square", "square_source"):
        p["N_space"] = 4 * ((d["N"] + 3) // 4)
    p.update(kw)
    return p


def project(f, edges, M, jumps):
    """Projection of f(x) on the orthonormal Legendre basis of each cell, and
    which cells a jump of f falls inside."""
    out = np.zeros((edges.size - 1, M + 1))
    cut = np.zeros(edges.size - 1, bool)
    for k in range(edges.size - 1):
        a, b = edges[k], edges[k + 1]
        w = 1e-9 * (b - a)
        cut[k] = any(a + w < s < b - w for s in jumps)
        pts = [a] + [s for s in sorted(jumps) if a < s < b] + [b]
        pts = sorted(set(pts) | set(np.linspace(a, b, 5)))
        for i in range(M + 1):
            out[k, i] = ref.gl_pieces(
                lambda x: f(x) * ref.leg(i, x, a, b), pts)
    return out, cut


def slab(d):
    p = par(d)
    mesh = lab.make_mesh(p)
    edges = np.array(mesh.edges, float)
    b = lab.make_build(p)
    b.make_IC()
    got = np.array(b.IC)
    N, M = p["N_space"], d["M"]
    mus = np.array(lab.angles(d["ang"], lab.full(p)["weights"])[0])
    if got.shape != (d["ang"], N, M + 1):
        fail(f"initial condition of shape {got.shape}")
    kind, q, s, x0 = d["kind"], d["q"], d["sigma"], p["x0"]
    jumps = []
    if d["unc"] or kind in ("square_source", "gaussian_source"):
        f = lambda x, mu: 0 * x
    elif kind == "plane":
        if not d["moving"]:
            x0 = (edges[N // 2 + 1] - edges[N // 2 - 1])
        jumps = [-x0, x0]
        f = lambda x, mu: q / (4 * x0) * (np.abs(x) < x0)
    elif kind == "square":
        jumps = [-x0, x0]
        f = lambda x, mu: q / 2 * (np.abs(x) < x0)
    elif kind == "gaussian":
        f = lambda x, mu: q / 2 * np.exp(-(x / s) ** 2)
    elif kind == "noniso":
        f = lambda x, mu: q * np.exp(-(x / s) ** 2) * (mu > 0)
    elif kind == "mms":
        f = lambda x, mu: np.exp(-x * x / 2) / 2
    elif kind == "self_sim":
        c = 29.998 / 3 / 800 * 0.01
        f = lambda x, mu: np.exp(-x * x / 4 / c) / math.sqrt(
            math.pi / 2 * c) / 2
    ws = np.array(lab.angles(d["ang"], lab.full(p)["weights"])[1])
    total = 0.0
    for ang, mu in enumerate(mus):
        want, cut = project(lambda x: f(x, mu), edges, M, jumps)
        scale = np.max(np.abs(want)) + 1e-300
        close(got[ang][~cut], want[~cut], f"{kind} initial condition", 1e-7,
              1e-12)
        if np.any(cut):
            err = np.max(np.abs(got[ang][cut] - want[cut]))
            if err > 0.25 * scale:
                fail(f"{kind}: a cut cell is off by {err}")
        total += ws[ang] * np.sum(got[ang][:, 0] * np.sqrt(np.diff(edges)))
    if kind == "plane" and not d["unc"] and d["moving"]:
        # a unit pulse holds q particles however small the cells are
        if abs(total - q) > 1e-9 * q:
            fail(f"the plane pulse holds {total} particles, not {q}")
    if kind == "plane" and not d["unc"] and not d["moving"] and not np.any(cut):
        if abs(total - q) > 1e-9 * q:
            fail(f"the static plane pulse holds {total} particles, not {q}")
    return M >= 1 and N >= 2 and bool(np.any(got != 0))


def dipole(d):
    """Two opposite pulses: no net particles, odd in x."""
    p = par(dict(d, kind="plane", moving=0, unc=0),
            source=(2, 0, 0, 0, 0, 0), x0=d["x0"])
    edges = np.array(lab.make_mesh(p).edges, float)
    b = lab.make_build(p)
    b.make_IC()
    got = np.array(b.IC)
    N, M, q = d["N"], d["M"], d["q"]
    w = edges[N // 2 + 1] - edges[N // 2]
    f = lambda x: q / 2 / w * (np.where((x > 0) & (x < w), 1.0, 0.0)
                               - np.where((x < 0) & (x > -w), 1.0, 0.0))
    want, cut = project(f, edges, M, [-w, 0.0, w])
    for ang in range(d["ang"]):
        close(got[ang][~cut], want[~cut], "dipole", 1e-7, 1e-10)
        scale = np.max(np.abs(want)) + 1e-300
        if np.max(np.abs(got[ang] - want)) > 0.5 * scale:
            fail("dipole in a cut cell")
    return M >= 1


def sphere(d):
    kind = d["kind"]
    src = (1, 0, 0, 0, 0, 0) if kind == "plane" else (0, 1, 0, 0, 0, 0)
    p = par(dict(d, kind="gaussian"), geom="sphere", source=src, x0=d["x0"],
            xs_order=40)
    edges = np.array(lab.make_mesh(p).edges, float)
    b = lab.make_build(p)
    b.make_IC()
    got = np.array(b.IC)
    N, M, q, R = d["N"], d["M"], d["q"], p["x0"]
    level = 0.0
    if not d["unc"]:
        if kind == "plane":
            if not d["moving"] and N % 2 == 0:
                R = edges[1] - edges[0]
            level = q / R ** 3
        else:
            level = q * 3 / (4 * math.pi * R ** 3) / 2
    w = 1e-9 * R
    for k in range(N):
        a, c = edges[k], edges[k + 1]
        row = np.zeros(M + 1)
        if c <= R + w:      # wholly inside: only the constant mode is excited
            row[0] = level * math.sqrt(math.pi * (c - a))
        elif a < R - w:
            if np.max(np.abs(got[:, k])) > 3 * level * math.sqrt(
                    math.pi * (c - a)) + 1e-12:
                fail("ball: a cut cell is too large")
            continue
        for ang in range(d["ang"]):
            close(got[ang, k], row, f"ball, cell {k}", 1e-9,
                  1e-10 * (1 + level))
    return M >= 1 and level > 0


def material(d):
    """Radiation coupled to a material: uniform initial energy density."""
    p = par(dict(d, kind="square", unc=0), thermal=1, temp_function=(1, 0),
            e_init=d["e"])
    edges = np.array(lab.make_mesh(p).edges, float)
    b = lab.make_build(p)
    b.make_IC()
    got = np.array(b.IC)
    if got.shape[0] != d["ang"] + 1:
        fail("no energy equation in the initial condition")
    want = np.zeros((p["N_space"], d["M"] + 1))
    want[:, 0] = d["e"] * np.sqrt(np.diff(edges))
    close(got[-1], want, "initial energy", 1e-9, 1e-12)
    return d["M"] >= 1 and d["e"] > 0


base = dict(ang=rarely(pick(2, 4, 6), 16), N=rarely(pick(2, 4, 6, 8, 3, 5), 16, 32),
            M=rarely(ints(0, 5), 7, 9),
            tf=num(0.2, 3, 0.1), x0=num(0.1, 3, 0.05), sigma=num(0.3, 3, 0.1),
            q=rarely(num(0.1, 5, 0.1), 40.0, 1e3), moving=ints(0, 1), unc=ints(0, 1))
static_ok = dict(base, N=pick(4, 6, 8))
CHECKS = [
    Check("smooth", case(kind=pick("gaussian", "noniso", "mms", "self_sim",
                                   "square_source", "gaussian_source"),
                         **dict(base, unc=pick(0, 0, 0, 1))),
          slab, quick=800),
    Check("square", case(kind=pick("square"), **dict(base, unc=pick(0, 0, 1))),
          slab, quick=400),
    Check("plane", case(kind=pick("plane"), **dict(static_ok,
                                                   unc=pick(0, 0, 0, 1))),
          slab, quick=400),
    Check("dipole", case(**static_ok), dipole, quick=160),
    Check("sphere", case(kind=pick("plane", "square"), **base), sphere,
          quick=600),
    Check("material", case(e=num(0, 4, 0.1), **base), material, quick=240),
]
