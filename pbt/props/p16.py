"""Uncollided flux of the spherical pulse and of the travelling shock."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, fail, ints, num, pick, st
from .p14 import Q, T, X0, build, compare, near, points, zs

RULE = "a point where the uncollided flux is positive"
ASSUMPTIONS = [
    "Total cross section one for the ball pulse.",
    "Shock problem: even numbers of directions, shock speed below the "
    "smallest |mu|, points inside the slab and away from beam fronts, and the "
    "shock still inside the slab (as its mesh requires).",
]


def ball(d):
    """Pulse of one particle spread over a ball: integrate the directions from
    which a straight flight of length t started inside the ball."""
    t, q, R = d["t"], d["q"], d["x0"]
    u = build(d, (0, 1, 0, 0, 0, 0), geom="sphere")
    rs = np.abs(points(d, t + R)) + 1e-3
    got = u.uncollided_solution(rs, t)

    dens = q / (4 / 3 * math.pi * R ** 3)

    def margin(r):
        """The code divides by t + 1e-12: its cosine moves by this much."""
        return 1e-9 + 2e-12 * dens * (1 / r + (r + R * R / r) / t ** 2)

    def exact(r):
        if near(r, [t - R, t + R, R - t]):
            return None
        # |r - t Omega|^2 = r^2 + t^2 - 2 r t mu < R^2
        lo = (r * r + t * t - R * R) / (2 * r * t)
        lo = min(1.0, max(-1.0, lo))
        return dens * 0.5 * (1 - lo) * math.exp(-t)
    return compare(rs, got, exact, margin, "ball pulse", q)


def ball_mass(d):
    """The integral of the uncollided flux over space is what has not yet
    collided: exp(-t) of the pulse."""
    t, q, R = d["t"], d["q"], d["x0"]
    u = build(d, (0, 1, 0, 0, 0, 0), geom="sphere")

    def f(r):
        return 4 * math.pi * r * r * np.array(u.uncollided_solution(r, t))
    pts = sorted({1e-9, abs(t - R), t + R})
    pieces = []
    for a, b in zip(pts[:-1], pts[1:]):
        pieces += list(np.linspace(a, b, 5))
    total = ref.gl_pieces(f, sorted(set(pieces)), 24)
    want = q * math.exp(-t)
    if abs(total - want) > 1e-6 * (1 + want):
        fail(f"{total} particles uncollided at t={t}, not {want}")
    return want > 1e-6


def shock(d):
    """Beam from the left face through the travelling opacity."""
    t, X, v, t0, n, q = d["t"], d["x0"], d["v"], d["t0"], d["n"], d["q"]
    v = min(v, math.floor(900 * X / t) / 1000)
    p = dict(x0=X, t0=t0, q=q)
    u = build(p, (0, 0, 0, 0, 0, 0), N_ang=n, fake_sedov_v0=v,
              sigma_func="fake_sedov", weights=d["w"])
    mus, ws = lab.angles(n, d["w"])
    xs = np.array(d["z"], float) * X
    got = u.uncollided_solution(xs, t)

    def sigma(x, time):
        return np.where(x + v * time >= 0,
                        np.exp(-(x + 1 + v * time) ** 2 / 4), 0.2)
    hit = False
    for x, g in zip(xs, got):
        want, skip = 0.0, False
        for mu, w in zip(mus, ws):
            if mu <= 0:
                continue
            te = t - (x + X) / mu            # emission time at -X
            if min(abs(te), abs(te - t0)) < 1e-7 * (1 + abs(t) + abs(t0)):
                skip = True
            if te < 0 or te > t0:
                continue
            # the ray is at s at time te + (s+X)/mu; front at -v*time
            front = -(v * te + v * X / mu) / (1 + v / mu)
            cut = sorted({-X, float(x)} | ({front} if -X < front < x else set()))
            mfp = ref.gl_pieces(
                lambda s: sigma(s, te + (s + X) / mu) / mu, cut, 64)
            want += w * math.exp(-mfp)
        if skip:
            continue
        if abs(g - q * want) > 1e-8 * (1 + q):
            fail(f"shock problem: flux at x={x} is {g}, not {q * want}")
        hit = hit or want > 1e-10
    return hit


CHECKS = [
    Check("ball", case(t=T, q=Q, x0=X0, z=zs), ball, quick=3000),
    Check("ball_mass", case(t=T, q=Q, x0=X0), ball_mass, quick=1200),
    Check("shock", case(t=num(0.1, 30, 0.1), x0=num(0.5, 8, 0.1),
                        v=num(0.001, 0.3), t0=num(0.1, 30, 0.1),
                        n=pick(2, 4, 6, 8),
                        w=pick("gauss_legendre", "gauss_lobatto"), q=Q,
                        z=st.lists(num(-1, 1), min_size=1, max_size=3)),
          shock, quick=1600),
]
