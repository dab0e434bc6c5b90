"""Uncollided scalar flux of the slab sources, against the defining integral."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, fail, ints, num, pick, rarely, st

RULE = "a point where the uncollided flux is positive"
ASSUMPTIONS = [
    "Total cross section one (the code's non-dimensional form).",
    "Points closer than 1e-9 to a wave front are not compared.",
    "The Gaussian source is compared to the accuracy of its own time "
    "quadrature with t_nodes >= 60.",
]


def build(d, source, **kw):
    p = dict(geom="slab", N_ang=4, source=source, uncollided=True,
             x0=d["x0"], t0=d.get("t0", 1.0), sigma=d.get("sigma", 0.5),
             source_strength=d["q"], t_nodes=80)
    p.update(kw)
    return lab.make_unc(lab.make_build(p))


def points(d, reach):
    return np.array(d["z"], float) * 1.15 * reach


def near(x, fronts):
    return any(abs(abs(x) - abs(f)) < 1e-9 for f in fronts)


def compare(xs, got, exact, tol, what, size=1.0):
    """Errors in units of the flux and of the strength of the source."""
    hit = False
    for x, g in zip(xs, got):
        e = exact(float(x))
        if e is None:
            continue
        near_by = tol(float(x)) if callable(tol) else tol
        if not abs(g - e) <= near_by * (max(1.0, size) + abs(e)):
            fail(f"{what}: flux at x={x} is {g}, not {e}")
        hit = hit or e > 1e-12
    return hit


def plane(d):
    t, q = d["t"], d["q"]
    d = dict(d, x0=1e-11)
    u = build(d, (1, 0, 0, 0, 0, 0))
    xs = points(d, t)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        if near(x, [t]):
            return None
        return q * math.exp(-t) / (2 * t) if abs(x) < t else 0.0
    hit = compare(xs, got, exact, 1e-9 / min(t, 1), "plane pulse", q)
    # what a cell receives is the projection of that constant on it
    a, w = d["a"] * t, d["w"] * t
    S = u.plane_IC_uncollided_solution_integrated(t, a, a + w)
    want = math.exp(-t) / (2 * t) * math.sqrt(w)
    if abs(S - want) > 1e-9 * (1 + want) / min(t, 1):
        fail(f"plane pulse projected on a cell: {S}, not {want}")
    return hit


def square_ic(d):
    t, q, x0 = d["t"], d["q"], d["x0"]
    u = build(d, (0, 1, 0, 0, 0, 0))
    xs = points(d, t + x0)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        if near(x, [x0 - t, x0 + t]):
            return None
        lo, hi = max(x - t, -x0), min(x + t, x0)
        return q * math.exp(-t) * max(0.0, hi - lo) / (2 * t)
    return compare(xs, got, exact, 1e-9, "square pulse", q)


def gaussian_ic(d):
    t, q, s = d["t"], d["q"], d["sigma"]
    u = build(dict(d, x0=2.0), (0, 0, 0, 1, 0, 0))
    xs = points(d, t + 2 * s)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        return q * math.exp(-t) / (2 * t) * ref.gl_pieces(
            lambda y: np.exp(-(y / s) ** 2), np.linspace(x - t, x + t, 9))
    return compare(xs, got, exact, 1e-9, "Gaussian pulse", q)


def square_source(d):
    t, q, x0, t0 = d["t"], d["q"], d["x0"], d["t0"]
    u = build(d, (0, 0, 1, 0, 0, 0))
    xs = points(d, t + x0)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        # age s of the particles: those emitted within the last t0 of t
        lo = max(0.0, t - t0)
        cut = [lo, t] + [c for c in (x0 - abs(x), x0 + abs(x), abs(x) - x0)
                         if lo < c < t]

        def f(s):
            a = np.maximum(x - s, -x0)
            b = np.minimum(x + s, x0)
            return np.exp(-s) * np.maximum(0, b - a) / (2 * s)
        # near s=0 the integrand is smooth in every piece, but the tail 1/s
        # is only resolved by graded pieces
        pts = sorted(set(cut + [c for c in np.geomspace(1e-6, 40, 60)
                                if lo < c < t]))
        return q * ref.gl_pieces(f, pts, 24)
    hit = compare(xs, got, exact, 1e-7, "square source", q)
    far = np.array([t + x0 + 1e-6, -(t + x0 + 0.5)])
    if np.any(u.uncollided_solution(far, t) != 0):
        fail("square source: flux ahead of the fastest particle")
    return hit


def gaussian_source(d):
    t, q, s, t0 = d["t"], d["q"], d["sigma"], d["t0"]
    u = build(dict(d, x0=2.0), (0, 0, 0, 0, 0, 1))
    xs = points(d, t + 2 * s)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        lo = max(0.0, t - t0)

        def f(age):
            out = np.empty_like(age)
            for k, ag in enumerate(age):
                out[k] = (math.erf((x + ag) / s) - math.erf((x - ag) / s)) \
                    * math.sqrt(math.pi) * s / 4 / ag * math.exp(-ag)
            return out
        return q * ref.gl_pieces(f, np.linspace(lo, t, 25), 16)
    return compare(xs, got, exact, 2e-6, "Gaussian source", q)


def even(d):
    """Every slab source is symmetric, so its uncollided flux is even, and it
    is linear in the source strength and never negative."""
    t, x0 = d["t"], d["x0"]
    src = [0] * 6
    src[d["k"]] = 1
    kw = dict(N_ang=d["ang"])
    if d["k"] == 0:
        d = dict(d, x0=1e-11)
    u1 = build(dict(d, q=1.0), tuple(src), **kw)
    uq = build(d, tuple(src), **kw)
    xs = points(d, t + x0 + d["sigma"])
    f1 = np.array(u1.uncollided_solution(xs, t))
    gen.close(u1.uncollided_solution(-xs, t), f1, "even flux", 1e-6, 1e-7)
    gen.close(uq.uncollided_solution(xs, t), d["q"] * f1, "linear in strength",
              1e-12, 1e-14)
    if np.min(f1) < -1e-6:
        fail(f"negative uncollided flux {np.min(f1)}")
    return np.max(f1) > 1e-12


zs = st.lists(num(-1, 1, 0.0001), min_size=1, max_size=4)
T = rarely(num(0.02, 8, 0.01), 12.0, 20.0)
Q = rarely(num(0.1, 5, 0.1), 40.0, 1e3)
X0 = num(0.05, 4, 0.05)
CHECKS = [
    Check("plane", case(t=T, q=Q, z=zs, a=num(-1, 0.9), w=num(0.01, 0.1)),
          plane, quick=800),
    Check("square_pulse", case(t=T, q=Q, x0=X0, z=zs), square_ic, quick=1600),
    Check("gaussian_pulse", case(t=T, q=Q, sigma=num(0.1, 4, 0.1), z=zs),
          gaussian_ic, quick=1200),
    Check("square_source", case(t=T, q=Q, x0=X0, t0=num(0.1, 9, 0.1), z=zs),
          square_source, quick=1600),
    Check("gaussian_source", case(t=T, q=Q, sigma=num(0.3, 4, 0.1),
                                  t0=num(0.1, 9, 0.1), z=zs),
          gaussian_source, quick=800),
    Check("even_linear", case(k=pick(0, 1, 2, 3, 5), t=T, q=Q, x0=X0,
                              ang=pick(2, 4), sigma=num(0.3, 4, 0.1),
                              t0=num(0.1, 9, 0.1), z=zs), even, quick=1200),
]
