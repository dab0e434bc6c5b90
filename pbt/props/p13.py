"""What the source contributes to each cell."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st

RULE = "the source is on and not zero in some cell of the history, M >= 1"
ASSUMPTIONS = [
    "A cell does not straddle the rim of the source or a wave front of the "
    "uncollided flux (there the projection is only as good as the quadrature).",
    "The instant at which a source is switched off is not compared.",
    "Total cross section one, as in the code's non-dimensional form.",
]


def build(d, kind, **kw):
    src = [0] * 6
    src[kind] = 1
    p = dict(geom="slab", N_ang=d["ang"], M=d["M"], x0=d["x0"], t0=d["t0"],
             tfinal=10.0, sigma=d["sigma"], sigma_s=d["ss"], source=tuple(src),
             source_strength=d["q"], xs_order=40, t_nodes=60)
    p.update(kw)
    return p


def project(f, a, b, M):
    return np.array([ref.gl_pieces(lambda x: f(x) * ref.leg(i, x, a, b),
                                   np.linspace(a, b, 5))
                     for i in range(M + 1)])


def history(d, p, exact, fronts, tol, what):
    """One source object is asked for many cells at many times, in any order:
    each answer depends on its own arguments only."""
    b = lab.make_build(p)
    s = lab.make_source(b)
    unc = lab.make_unc(b)
    hit = False
    for t, x, w in d["calls"]:
        a, c = x, x + w
        if any(a < f < c or abs(f - a) < 1e-9 or abs(f - c) < 1e-9
               for f in fronts(t)):
            # move the cell until it ends on the front
            f = [f for f in fronts(t) if a - 1e-9 < f < c + 1e-9][0]
            a, c = f + 1e-9, f + w
            if any(a < g < c for g in fronts(t)):
                continue
        f = exact(t)
        if f is None:
            continue
        s.make_source(t, a, c, unc)
        want = project(f, a, c, p["M"])
        close(np.array(s.S), want, f"{what} at t={t} in [{a},{c}]", tol, tol)
        hit = hit or bool(np.max(np.abs(want)) > 1e-12)
    return hit and p["M"] >= 1


def prescribed(d):
    kind = d["kind"]
    p = build(d, kind)
    x0, t0, q, sg = d["x0"], d["t0"], d["q"], d["sigma"]

    def exact(t):
        if abs(t - t0) < 1e-9:
            return None
        on = 1.0 if t < t0 else 0.0
        if kind == 2:
            return lambda x: q * on * (np.abs(x) < x0)
        return lambda x: q * on * np.exp(-(x / sg) ** 2)
    fronts = (lambda t: [-x0, x0]) if kind == 2 else (lambda t: [])
    return history(d, p, exact, fronts, 1e-8, "prescribed source")


def scattered(d):
    """With the uncollided flux split off, the source of the collided problem
    is the first scattering of the uncollided particles."""
    kind = d["kind"]
    p = build(d, kind, uncollided=True, moving=bool(d["moving"]))
    x0, t0, q, sg, ss = d["x0"], d["t0"], d["q"], d["sigma"], d["ss"]
    if kind == 0:
        p["x0"] = x0 = 1e-10
        p["moving"] = False

    def exact(t):
        if t < 1e-3:
            return None
        if kind == 0:
            return lambda x: ss * q * math.exp(-t) / 2 / t * (np.abs(x) < t)
        if kind == 1:
            return lambda x: ss * q * math.exp(-t) / 2 / t * np.maximum(
                0, np.minimum(x + t, x0) - np.maximum(x - t, -x0))

        def g(x):
            e = np.vectorize(math.erf)
            return ss * q * math.exp(-t) / 4 / t * sg * math.sqrt(math.pi) * (
                e((x + t) / sg) - e((x - t) / sg))
        return g
    fronts = {0: lambda t: [-t, t], 3: lambda t: [],
              1: lambda t: [x0 - t, t - x0, x0 + t, -x0 - t]}[kind]
    return history(d, p, exact, fronts, 1e-7, "first scattering")


def plane_moving(d):
    """A plane pulse whose mesh follows its front: the flux is uniform in
    every cell, so only the constant mode is excited."""
    p = build(d, 0, uncollided=True, moving=True, x0=1e-10)
    b = lab.make_build(p)
    s, unc = lab.make_source(b), lab.make_unc(b)
    hit = False
    for t, x, w in d["calls"]:
        if t < 1e-3:
            continue
        a, c = max(-t, min(t, x)), min(t, x + w)
        if not a < c:
            continue
        s.make_source(t, a, c, unc)
        want = np.zeros(d["M"] + 1)
        want[0] = d["ss"] * d["q"] * math.exp(-t) / 2 / t * math.sqrt(c - a)
        close(np.array(s.S), want, f"plane pulse at t={t} in [{a},{c}]",
              1e-6, 1e-12)
        hit = True
    return hit and d["M"] >= 1


def manufactured(d):
    """The source of the manufactured problem makes exp(-x^2/2)/(2(1+t)) solve
    the transport equation with unit cross sections."""
    p = build(d, 4)
    b = lab.make_build(p)
    s = lab.make_source(b)
    mus = lab.angles(d["ang"], lab.full(p)["weights"])[0]
    hit = False
    for n, (t, x, w) in enumerate(d["calls"]):
        mu = float(mus[n % len(mus)])
        lim = t + d["x0"]
        a, c = max(-lim, min(lim, x)), min(lim, x + w)
        if not a < c:
            continue
        # half of it drives each direction (d/dt + mu d/dx) psi
        psi_t = lambda x: -np.exp(-x * x / 2) / 2 / (1 + t) ** 2
        psi_x = lambda x: -x * np.exp(-x * x / 2) / 2 / (1 + t)
        s.make_source_not_isotropic(t, mu, a, c)
        want = 2 * project(lambda x: psi_t(x) + mu * psi_x(x), a, c, d["M"])
        close(np.array(s.S), want, "manufactured source", 1e-8, 1e-12)
        hit = True
        far = lim + 0.5
        s.make_source_not_isotropic(t, mu, far, far + 1.0)
        if np.any(np.array(s.S) != 0):
            fail("manufactured source beyond its support")
    return hit and d["M"] >= 1


def ball(d):
    """Sphere: projection of the uncollided flux with the weight r^2, by the
    code's own Chebyshev rule (so compared loosely, on smooth cells)."""
    R, q, t0 = d["x0"], d["q"], d["t0"]
    p = build(d, 1, geom="sphere", uncollided=True, xs_order=400)
    b = lab.make_build(p)
    s, unc = lab.make_source(b), lab.make_unc(b)
    hit = False
    for t, x, w in d["calls"]:
        if t < 0.05:
            continue
        a = abs(x)
        c = a + w
        fr = [abs(R - t), R + t]
        if any(a < f < c for f in fr):
            a = max(f for f in fr if a < f < c) + 1e-9
            c = a + w
            if any(a < f < c for f in fr):
                continue
        s.make_source(t, a, c, unc)
        want = np.array([ref.gl_pieces(
            lambda r: r * r * np.array(unc.uncollided_solution(
                np.ascontiguousarray(r), t)) * ref.cheb(i, r, a, c),
            np.linspace(a, c, 4), 20) for i in range(d["M"] + 1)])
        big = np.max(np.abs(want))
        if big < 1e-14:
            if np.max(np.abs(np.array(s.S))) > 1e-12:
                fail(f"ball: a source where no particle is, [{a},{c}], t={t}")
            continue
        close(np.array(s.S), want, f"ball at t={t} in [{a},{c}]", 2e-3, 1e-12)
        hit = True
    return hit and d["M"] >= 1


calls = st.lists(st.tuples(num(0.05, 6), num(-5, 5), num(0.05, 1.5)).map(list),
                 min_size=1, max_size=5)
base = dict(ang=pick(4, 6), M=rarely(ints(0, 5), 7, 9), x0=num(0.2, 3, 0.05),
            t0=num(0.2, 6, 0.05), sigma=num(0.4, 3, 0.1), q=rarely(num(0.1, 5, 0.1), 40.0, 1e3),
            ss=pick(1.0, 1.0, 0.9, 0.5, 0.0, 0.25, 1.5), calls=calls)
CHECKS = [
    Check("prescribed", case(kind=pick(2, 5), **base), prescribed, quick=1200),
    Check("first_scattering", case(kind=pick(0, 1, 1, 3), moving=ints(0, 1),
                                   **base), scattered, quick=1200),
    Check("plane_moving", case(**base), plane_moving, quick=500),
    Check("manufactured", case(**base), manufactured, quick=500),
    Check("ball", case(**dict(base, M=ints(0, 3))), ball, quick=200),
]
