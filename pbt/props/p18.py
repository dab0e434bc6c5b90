"""Scattering: isotropic, conserving, and resolved with the opacity."""
import math

import numpy as np
from numpy.polynomial import legendre as Lg

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st
from . import p17

RULE = "M >= 1, four or more directions, a scattering cross section above zero"
ASSUMPTIONS = list(p17.ASSUMPTIONS)


def objects(d, N, **kw):
    p = p17.par(d, N)
    p.update(N_ang=d["ang"], weights=d["w"], **kw)
    b = lab.make_build(p)
    s = lab.make_sigma(b)
    f = lab.make_phi(b)
    f.load_AAA(s.AAA)
    mus, ws = lab.angles(d["ang"], d["w"])
    return s, f, np.array(mus), np.array(ws) / 2


def term(d):
    """The scattering term is sigma_s times half the integral of the flux over
    directions, cell by cell, in any order."""
    N, M = len(d["gaps"]), d["M"]
    ss = d["st"] * d["c"]
    s, f, mus, ws = objects(d, N, geom=d["geom"])
    edges = d["x"] + np.concatenate([[0.0], np.cumsum(d["gaps"])])
    if d["geom"] == "sphere":
        edges = edges - edges[0]
    t = d["t"]
    s.sigma_moments(edges, t)
    f.get_coeffs(s)
    cs, ok = p17.moments(edges, d, t)
    u = gen.coeffs(d["u"], (d["ang"], N, M + 1))
    hit = False
    for k in gen.rng(d["u"]["seed"]).permutation(N):
        k = int(k)
        if not ok[k] and d["name"] != "constant":
            continue
        a, b = edges[k], edges[k + 1]
        f.make_P(np.ascontiguousarray(u[:, k, :]), k, a, b)
        P = ws @ u[:, k, :]
        if d["name"] == "constant":
            # the sphere applies the cross section outside this term
            want = (ss if d["geom"] == "slab" else 1.0) * P
        else:
            x, w = Lg.leggauss(2 * M + d["Ms"] + 3)
            y, w = 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w
            B = np.array([ref.leg(i, y, a, b) for i in range(M + 1)])
            S = sum(c * ref.leg(j, y, a, b) for j, c in enumerate(cs[k]))
            want = ss * (B * w * S * (P @ B)).sum(axis=1)
        close(np.array(f.scalar_flux_term), want,
              f"scattering, {d['name']}, cell {k}", 1e-8, 1e-10)
        hit = True
    return hit and M >= 1 and d["ang"] >= 4 and ss > 0


def conserves(d):
    """With no absorption, what scattering takes out of all directions it puts
    back: no particle is gained or lost in any cell, in any mode."""
    d = dict(d, c=1.0)
    N, M = len(d["gaps"]), d["M"]
    s, f, mus, ws = objects(d, N)
    edges = d["x"] + np.concatenate([[0.0], np.cumsum(d["gaps"])])
    s.sigma_moments(edges, d["t"])
    f.get_coeffs(s)
    u = gen.coeffs(d["u"], (d["ang"], N, M + 1))
    for k in range(N):
        f.make_P(np.ascontiguousarray(u[:, k, :]), k, edges[k], edges[k + 1])
        gain = np.array(f.scalar_flux_term).copy()
        loss = np.zeros(M + 1)
        for l in range(d["ang"]):
            s.make_vectors(edges, u[l, k].copy(), k)
            loss += ws[l] * np.array(s.VV)
        close(gain, loss, f"scattering balance, {d['name']}, cell {k}", 1e-9,
              1e-10)
    return M >= 1 and d["ang"] >= 4


base = dict(p17.base, ang=rarely(pick(2, 4, 6, 8), 16, 32), t=num(0, 10, 0.1),
            w=pick("gauss_legendre", "gauss_lobatto"),
            c=pick(1.0, 1.0, 0.5, 0.9, 0.0))
base.pop("steps")
CHECKS = [
    Check("term_constant", case(geom=pick("slab", "sphere"),
                                **dict(base, name=pick("constant"))), term,
          quick=600),
    Check("term", case(geom=pick("slab"), **base), term, quick=400),
    Check("conserves", case(geom=pick("slab"), **base), conserves, quick=400),
]
