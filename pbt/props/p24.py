"""Angular derivative of the spherical streaming term."""
import numpy as np

from .. import gen, shim
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st

RULE = "at least three angles and a non-constant angular flux"


def grid(d):
    """Strictly increasing angles from -1 to 1 (or strictly inside)."""
    g = np.array(d["gaps"], float)
    x = np.concatenate([[0.0], np.cumsum(g)])
    x = 2 * x / x[-1] - 1
    return x * (1.0 if d["closed"] else 0.98)


def conserve(d):
    f = shim.mod("solver_classes.functions")
    mu = grid(d)
    n = mu.size
    psi = gen.rng(d["seed"]).normal(size=n)
    mid = 0.5 * (mu[1:] + mu[:-1])
    lo, hi = np.concatenate([[-1.0], mid]), np.concatenate([mid, [1.0]])
    got = np.array([f.finite_diff_uneven(mu, i, psi, left=i == 0,
                                         right=i == n - 1) for i in range(n)])
    total = float(np.sum(got * (hi - lo)))
    scale = float(np.max(np.abs(psi)))
    if abs(total) > 1e-11 * scale * n:
        fail(f"the angular term creates particles: {total}")
    # each value is the exact difference of face values of (1-mu^2) psi
    face = np.concatenate([[0.0], (1 - mid ** 2) * 0.5 * (psi[1:] + psi[:-1]),
                           [0.0]])
    close(got, (face[1:] - face[:-1]) / (hi - lo), "angular derivative",
          1e-9, 1e-9)
    return n >= 3


def consistent(d):
    """Convergence to d/dmu((1-mu^2) psi) for a smooth psi as angles refine."""
    f = shim.mod("solver_classes.functions")
    p = np.polynomial.Polynomial(d["p"])
    exact = (np.polynomial.Polynomial([1, 0, -1]) * p).deriv()
    err = []
    for n in (41, 161):
        mu = np.linspace(-1, 1, n)
        psi = p(mu)
        got = np.array([f.finite_diff_uneven(mu, i, psi)
                        for i in range(1, n - 1)])
        err.append(np.max(np.abs(got - exact(mu[1:-1]))))
    size = np.sum(np.abs(d["p"])) + 1e-30
    if err[0] > 0.2 * size or err[1] > err[0] / 8 + 1e-9 * size:
        fail(f"error {err[0]} at 41 angles, {err[1]} at 161")
    return len(d["p"]) >= 3


def uneven(d):
    """The node-based difference: exact for parabolas inside, lines at ends."""
    f = shim.mod("solver_classes.functions")
    mu = grid(d)
    n = mu.size
    c0, c1, c2 = d["c"]
    u = c0 + c1 * mu + c2 * mu ** 2
    h = np.min(np.diff(mu))
    tol = 1e-11 * (1 + abs(c0) + abs(c1) + abs(c2)) / h
    for i in range(1, n - 1):
        got = f.finite_diff_uneven_2(mu, i, u)
        if abs(got - (c1 + 2 * c2 * mu[i])) > tol:
            fail(f"derivative of a parabola: {got}")
    for i, a, b in ((0, 0, 1), (n - 1, n - 2, n - 1)):
        got = f.finite_diff_uneven_2(mu, i, u, left=i == 0, right=i != 0)
        if abs(got - (u[b] - u[a]) / (mu[b] - mu[a])) > tol:
            fail(f"one-sided derivative: {got}")
    return n >= 3


gaps = st.lists(num(0.05, 3, 0.01), min_size=1, max_size=24)
CHECKS = [
    Check("conserve", case(gaps=gaps, closed=ints(0, 1), seed=gen.seed()),
          conserve, quick=2400),
    Check("consistent", case(p=st.lists(ints(-5, 5), min_size=1, max_size=5)),
          consistent, quick=240),
    Check("uneven", case(gaps=gaps, closed=ints(0, 1),
                         c=st.tuples(ints(-5, 5), ints(-5, 5),
                                     ints(-5, 5)).map(list)),
          uneven, quick=1600),
]
