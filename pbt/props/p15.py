"""Uncollided flux of the two-direction (S2) problems."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, ints, num, pick, st
from .p14 import Q, T, X0, build, compare, near, points, zs

RULE = "a point where the uncollided flux is positive"
ASSUMPTIONS = [
    "Total cross section one; S2 means two Gauss-Legendre directions, "
    "mu = +-1/sqrt(3).",
    "Points closer than 1e-9 to a wave front are not compared.",
    "Gaussian source widths up to 5 and |x| <= 12.",
]
V = 1 / math.sqrt(3)


def ages(d):
    return max(0.0, d["t"] - d["t0"]), d["t"]


def square(d):
    t, q, x0 = d["t"], d["q"], d["x0"]
    lo, hi = ages(d)
    u = build(d, (0, 0, 1, 0, 0, 0), N_ang=2)
    xs = points(d, V * t + x0)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        if near(x, [x0 + V * t, x0 - V * t, x0 + V * lo, x0 - V * lo, x0]):
            return None
        total = 0.0
        for s in (V, -V):          # the particle was at x - s*age
            a1, a2 = sorted(((x - x0) / s, (x + x0) / s))
            a1, a2 = max(a1, lo), min(a2, hi)
            if a2 > a1:
                total += 0.5 * (math.exp(-a1) - math.exp(-a2))
        return q * total
    hit = compare(xs, got, exact, 1e-10, "S2 square source", q)
    return hit


def gaussian(d):
    t, q, s = d["t"], d["q"], d["sigma"]
    lo, hi = ages(d)
    u = build(dict(d, x0=2.0), (0, 0, 0, 0, 0, 1), N_ang=2)
    xs = np.clip(points(d, V * t + 2 * s), -12, 12)
    got = u.uncollided_solution(xs, t)

    def exact(x):
        return q * ref.gl_pieces(
            lambda a: 0.5 * np.exp(-a) * (np.exp(-((x - V * a) / s) ** 2)
                                          + np.exp(-((x + V * a) / s) ** 2)),
            np.linspace(lo, hi, 17), 24)
    return compare(xs, got, exact, 1e-6, "S2 Gaussian source", q)


def helper(d):
    """The integrand the reference routine of the code integrates, and the
    closed form, agree with each other too."""
    from .. import shim
    f = shim.mod("solver_classes.functions")
    t, x0, t0 = d["t"], d["x0"], d["t0"]
    hit = False
    lo, hi = ages(d)
    for x in points(d, V * t + x0):
        x = float(x)
        cut = [0.0, min(t, t0)]
        for s in (V, -V):
            cut += [t - (x - x0) / s, t - (x + x0) / s]
        cut = sorted(c for c in cut if 0 <= c <= min(t, t0))
        if near(x, [x0 + V * t, x0 - V * t, x0 + V * lo, x0 - V * lo, x0]):
            continue
        want = ref.gl_pieces(
            lambda tau: f.su_olson_s2_integrand(tau, x, t, x0, t0), cut, 24)
        got = f.uncollided_su_olson_s2(x, t, x0, t0)
        if abs(got - want) > 1e-8:
            gen.fail(f"closed form {got}, integrand {want} at x={x}")
        hit = hit or got > 1e-12
    return hit


t0s = num(0.1, 9, 0.1)
CHECKS = [
    Check("square", case(t=T, q=Q, x0=X0, t0=t0s, z=zs), square, quick=4000),
    Check("gaussian", case(t=T, q=Q, sigma=num(0.3, 5, 0.1), t0=t0s, z=zs),
          gaussian, quick=2000),
    Check("integrand", case(t=T, x0=X0, t0=t0s, z=zs), helper, quick=800),
]
