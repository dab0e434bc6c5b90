"""Refinement: the error of a run falls at the order of the basis."""
import numpy as np
from scipy.linalg import expm

from .. import lab, meshes
from ..core import Check
from ..gen import case, fail, ints, num, pick, st
from . import p11, p27, p29

QUICK_BUDGET = 85
RULE = "an error above the floor on the coarse mesh"
ASSUMPTIONS = [
    "Smooth problems in the slab that the coarse mesh resolves; bells cut "
    "where they are below 1e-10.",
    "Order M + 1 less half an order for meshes that are still coarse.",
    "The split-off flux is exact (P14); the reference drives the modes of "
    "the collided flux with it.",
]


def collided(init, src, mus, ws, st_, ss, t, t0, xs, L, K):
    """Collided scalar flux with the directions of the run, driven by the
    exact uncollided flux of all directions."""
    mus, ws = np.array(mus), np.array(ws) / np.sum(ws)
    n = mus.size
    k = 2 * np.pi / L * np.arange(K + 1)
    A = np.zeros((K + 1, n, n), complex)
    i = np.arange(n)
    A[:, i, i] = -1j * k[:, None] * mus - st_
    A += ss * ws
    z, w = np.polynomial.legendre.leggauss(24)

    def unc(tau):
        if init is not None:
            return init(k) * np.exp(-st_ * tau) * np.sinc(k * tau / np.pi)
        a, b = max(0.0, tau - t0), tau      # ages of the particles
        out = 0
        m = 4
        for c, e in zip(np.linspace(a, b, m + 1)[:-1],
                        np.linspace(a, b, m + 1)[1:]):
            s = 0.5 * (e - c) * z + 0.5 * (c + e)
            out = out + 0.5 * (e - c) * np.exp(-st_ * s) * np.sinc(
                np.outer(k, s) / np.pi) @ w
        return src(k) * out
    y = np.zeros((K + 1, n, 1), complex)
    g, gw = np.polynomial.legendre.leggauss(5)
    cuts = [0.0, t] if src is None or t0 >= t else [0.0, t0, t]
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        m = max(4, int(np.ceil((hi - lo) * k[-1] / 2)))
        h = (hi - lo) / m
        E = expm(A * h)
        part = [expm(A * (0.5 * h * (1 - c))) for c in g]
        for step in range(m):
            new = E @ y
            for c, cw, P in zip(g, gw, part):
                f = unc(lo + step * h + 0.5 * h * (1 + c))
                drive = (0.5 * ss * f)[:, None] * np.ones(n)
                new = new + 0.5 * h * cw * (P @ drive[:, :, None])
            y = new
    F = 2 * (y[:, :, 0] @ ws)
    w = np.full(K + 1, 2.0)
    w[0] = 1.0
    return np.real(np.exp(1j * np.outer(xs, k)) @ (w * F)) / L


def solved(p, nodes):
    """Scalar flux from the coefficients at Gauss points of every cell."""
    T = p["tfinal"]
    r = lab.solve(p, rt=1e-9, at=1e-11, mxstp=0.1 * T)
    e, u = np.array(r["edges"]), np.array(r["sol"])
    z = np.polynomial.legendre.leggauss(nodes)[0]
    ws = lab.angles(p["N_ang"], p["weights"])[1]
    xs, phi = [], []
    for k, (a, b) in enumerate(zip(e[:-1], e[1:])):
        y = 0.5 * (b - a) * z + 0.5 * (a + b)
        B = np.array([p27.ref.leg(i, y, a, b) for i in range(p["M"] + 1)])
        xs.append(y)
        phi.append(ws @ (u[:, k, :] @ B))
    return np.concatenate(xs), np.concatenate(phi)


def falls(what, errs, M, floor):
    coarse, fine = errs
    if not fine <= max(coarse / 2 ** (M + 0.5), floor):
        fail(f"{what}: error {coarse:.3g} falls to {fine:.3g} on half the "
             f"cells, order {np.log2(coarse / fine):.2f} with M={M}")


def bells(d):
    p11.scratch()
    s, M = d["s"], d["M"]
    T = s * d["frac"]
    src = d["kind"] == "gaussian_source"
    d = dict(d, tf=T, unc=d["unc"] and not src)
    errs = []
    for n in (d["n"], 2 * d["n"]):
        p = p29.base(dict(d, n=n), source=meshes.SRC[d["kind"]], x0=4.5 * s,
                     sigma=s, sigma_t=1.0, sigma_s=d["c"],
                     uncollided=bool(d["unc"]))
        xs, phi = solved(p, M + 2)
        mus, ws = lab.angles(p["N_ang"], p["weights"])
        f = p29.bell(d["q"], s)
        L = 2 * (8 * s + T + abs(xs[-1]))
        a = (None if src else f, f if src else None, mus, ws, 1.0, d["c"], T,
             p["t0"], xs, L, int(L * 10 / s / 2 / np.pi) + 8)
        want = collided(*a) if d["unc"] else p29.fourier(*a)
        errs.append(np.sqrt(np.mean((phi - want) ** 2)) /
                    np.max(np.abs(want)))
    falls(d["kind"], errs, M, 1e-7)
    return errs[0] > 1e-7


def mms(d):
    p11.scratch()
    T, M = d["tf"], d["M"]
    errs = []
    for n in (d["n"], 2 * d["n"]):
        p = p29.base(dict(d, n=n, moving=1), source=meshes.SRC["mms"],
                     x0=d["x0"], sigma_s=1.0, source_strength=1.0)
        xs, phi = solved(p, M + 2)
        want = np.exp(-xs * xs / 2) / (1 + T)
        errs.append(np.sqrt(np.mean((phi - want) ** 2)) /
                    np.max(np.abs(want)))
    falls("manufactured", errs, M, 1e-7)
    return errs[0] > 1e-7


common = dict(w=pick("gauss_lobatto", "gauss_legendre"), t0f=num(0.2, 0.9, 0.1),
              q=num(0.5, 2, 0.1), c=num(0.1, 1.2, 0.1), M=pick(1, 2, 3))
CHECKS = [
    Check("bells",
          case(kind=pick("gaussian", "gaussian_source"), n=pick(18, 20),
               ang=pick(2, 4), s=num(0.5, 1.5, 0.1), frac=num(0.2, 1, 0.1),
               moving=ints(0, 1), unc=ints(0, 1), **common),
          bells, quick=32, thorough=400, jit=8),
    Check("mms",
          case(n=pick(6, 8), ang=pick(2, 4), x0=num(0.5, 1.5, 0.1),
               tf=num(0.3, 1.2, 0.1), **common),
          mms, quick=24, thorough=300, jit=8),
]
