"""Absorption: the opacity and its action on the angular flux."""
import math

import numpy as np
from numpy.polynomial import legendre as Lg

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st

RULE = "a variable opacity, M >= 1, two or more cells"
ASSUMPTIONS = [
    "Quadrature fine enough for the cells; cells cut by the travelling shock "
    "are not compared (there the moments are only as good as the quadrature).",
    "The opacity enters through its projection on Msigma + 1 Legendre modes.",
]


def sigma(name, v, x, t):
    """The opacity profiles, from their published definitions."""
    if name == "constant":
        return np.ones_like(x)
    if name == "gaussian":
        return np.exp(-x * x / 8)
    if name == "siewert1":
        return np.exp(-(x + 2.5))
    if name == "siewert2":
        return np.exp(-x / 1e11)
    return np.where(x + v * t >= 0, np.exp(-(x + 1 + v * t) ** 2 / 4), 0.2)


def par(d, N):
    return dict(geom="slab", M=d["M"], N_ang=4, N_space=N, x0=0.5,
                source=(1, 0, 0, 0, 0, 0), sigma_func=d["name"],
                Msigma=d["Ms"], fake_sedov_v0=d["v"], sigma_t=d["st"],
                sigma_s=d["st"] * d["c"], xs_order=d.get("order", 40))


def legval(i, z):
    c = np.zeros(i + 1)
    c[i] = 1
    return Lg.legval(z, c)


def tensor(d):
    """AAA_ijk is the integral of three orthonormal Legendre polynomials."""
    M, Ms = d["M"], min(d["Ms"], 2 * d["M"] + 1)
    p = par(dict(d, Ms=Ms, order=None), 2)
    A = np.array(lab.make_sigma(lab.make_build(p)).AAA)
    x, w = Lg.leggauss(M + M + Ms + 2)
    n = lambda i: math.sqrt((2 * i + 1) / 2) * legval(i, x)
    B = np.array([n(i) for i in range(M + 1)])
    S = np.array([n(i) for i in range(Ms + 1)])
    want = np.einsum("iq,jq,kq,q->ijk", B, B, S, w) * math.sqrt(2)
    # the code's tensor is divided by sqrt of the cell width, not of its half
    close(A, want, "triple products", 1e-10, 1e-11)
    return M >= 1 and Ms >= 1


def cut(a, b, d, t):
    f = -d["v"] * t
    return d["name"] == "fake_sedov" and a - 1e-9 < f < b + 1e-9


def moments(edges, d, t):
    out, ok = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        out.append([ref.gl_pieces(lambda x: sigma(d["name"], d["v"], x, t)
                                  * ref.leg(j, x, a, b),
                                  np.linspace(a, b, 4))
                    for j in range(d["Ms"] + 1)])
        ok.append(not cut(a, b, d, t))
    return np.array(out), np.array(ok)


def history(d):
    """The moments at each time are those of the opacity at that time on that
    mesh, whatever was asked before."""
    N = len(d["gaps"])
    s = lab.make_sigma(lab.make_build(par(d, N)))
    base = d["x"] + np.concatenate([[0.0], np.cumsum(d["gaps"])])
    hit = False
    for t, stretch in d["steps"]:
        edges = base * (1 + stretch)
        s.sigma_moments(edges, t)
        want, ok = moments(edges, d, t)
        close(np.array(s.cs)[ok], want[ok], f"{d['name']} moments at t={t} "
              f"after {d['steps']}", 1e-8, 1e-10)
        hit = hit or bool(np.any(ok))
    return hit and N >= 2 and d["name"] != "constant"


def action(d):
    """Absorption of a flux is the projection of sigma_h psi_h."""
    N, M = len(d["gaps"]), d["M"]
    s = lab.make_sigma(lab.make_build(par(d, N)))
    edges = d["x"] + np.concatenate([[0.0], np.cumsum(d["gaps"])])
    u = gen.coeffs(d["u"], (N, M + 1))
    hit = False
    for t, _ in d["steps"]:
        s.sigma_moments(edges, t)
        cs, ok = moments(edges, d, t)
        for k in gen.rng(d["u"]["seed"]).permutation(N):
            k = int(k)
            if not ok[k] and d["name"] != "constant":
                continue
            a, b = edges[k], edges[k + 1]
            s.make_vectors(edges, u[k].copy(), k)
            if d["name"] == "constant":
                want = d["st"] * u[k]
            else:
                x, w = Lg.leggauss(2 * M + d["Ms"] + 3)
                y, w = 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w
                B = np.array([ref.leg(i, y, a, b) for i in range(M + 1)])
                S = sum(c * ref.leg(j, y, a, b) for j, c in enumerate(cs[k]))
                want = d["st"] * (B * w * S * (u[k] @ B)).sum(axis=1)
            close(np.array(s.VV), want, f"absorption, {d['name']}, t={t}, "
                  f"cell {k}", 1e-8, 1e-10)
            hit = True
    return hit and M >= 1 and N >= 2 and d["name"] != "constant"


NAMES = pick("gaussian", "siewert1", "siewert2", "fake_sedov", "fake_sedov",
             "constant")
base = dict(M=rarely(ints(0, 5), 7), Ms=rarely(ints(0, 6), 8), name=NAMES, v=pick(0.0, 0.005, 0.02,
                                                            0.1, 0.3),
            st=rarely(num(0.2, 3, 0.1), 20.0), c=pick(1.0, 0.5, 0.0), x=num(-4, 3),
            gaps=gen.widths(0.1, 2, 1, 5),
            steps=st.lists(st.tuples(num(0, 10, 0.1),
                                     pick(0.0, 0.0, 0.25, 1.0)).map(list),
                           min_size=1, max_size=4), u=gen.coeff_spec())
CHECKS = [
    Check("tensor", case(**base), tensor, quick=300),
    Check("history", case(**base), history, quick=800),
    Check("action", case(**base), action, quick=500),
]
