"""Cubic spline and the elimination behind it."""
import numpy as np
from scipy.interpolate import CubicSpline

from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rng, st
from ..shim import mod

QUICK_BUDGET = 60
RULE = "three or more knots; a system of two or more unknowns"
ASSUMPTIONS = [
    "Knots increase and are not far apart compared with their distance from "
    "zero (the coefficients are those of powers of x).",
    "Systems are well conditioned (condition number below 1e5).",
]


def spline(v):
    gaps = np.array(v["gaps"])
    x = v["start"] + np.concatenate([[0.0], np.cumsum(gaps)])
    y = rng(v["seed"]).normal(size=x.size)
    if v["kind"] == "line":
        y = 0.7 * x - 0.3
    elif v["kind"] == "step":
        y = (np.arange(x.size) >= x.size // 2).astype(float)
    keep = x.copy(), y.copy()
    o = mod("solver_classes.cubic_spline").cubic_spline(x, y)
    inside = np.concatenate([x, np.minimum(
        x[-1], x[0] + (x[-1] - x[0]) * np.array(v["at"]) / 1000.0)])
    out = np.array([x[0] - 0.1, x[-1] + 0.1, x[-1] + 7.0])
    order = rng(v["seed"]).permutation(inside.size + out.size)
    pts = np.concatenate([inside, out])[order]
    got = np.empty(pts.size)
    got[order] = o.eval_spline(np.ascontiguousarray(pts))
    close(x, keep[0], "knots changed", 0, 0)
    close(y, keep[1], "data changed", 0, 0)
    ref = CubicSpline(x, y, bc_type="natural")
    tol = 1e-7 if x.size < 30 else 1e-5
    close(got[:x.size], y, "value at the knots", tol, tol)
    close(got[:inside.size], ref(inside), "natural spline", tol, tol)
    close(got[inside.size:], np.zeros(out.size), "outside the knots", 0, 0)
    return x.size >= 3


def system(v):
    n, r = v["n"], rng(v["seed"])
    A = r.normal(size=(n, n))
    if v["kind"] == "permuted":          # needs its rows exchanged
        A = np.eye(n)[r.permutation(n)] * r.uniform(0.5, 2, n)
    elif v["kind"] == "scaled":
        A = A * 10.0 ** r.integers(-2, 3, n)[:, None]
    elif v["kind"] == "triangular":
        A = np.tril(A) + 2 * np.eye(n)
        A = A[r.permutation(n)]
    elif v["kind"] == "sparse":
        A = np.where(r.random((n, n)) < 0.4, A, 0.0)[:, r.permutation(n)]
        A[np.arange(n), r.permutation(n)] = 3.0
    b = r.normal(size=n)
    c = np.linalg.cond(A)
    if not c < 1e5:
        return False
    keep = A.copy(), b.copy()
    x = mod("solver_classes.cubic_spline").GaussElim(A, b, 0)
    close(A, keep[0], "matrix changed", 0, 0)
    close(b, keep[1], "right-hand side changed", 0, 0)
    close(x, np.linalg.solve(A, b), f"solution of {v['kind']} system",
          1e-12 * c * n, 1e-13)
    return n >= 2


def pieces(v):
    n, r = v["n"], rng(v["seed"])
    m = mod("solver_classes.cubic_spline")
    A = r.normal(size=(n, n + 1))
    B = A.copy()
    i, j = v["i"] % n, v["j"] % n
    m.swap_rows(B, i, j)
    want = A.copy()
    want[[i, j]] = A[[j, i]]
    close(B, want, f"exchange of rows {i}, {j}", 0, 0)
    for bad in ((-1, 0), (0, n), (n, 0), (0, -1)):
        try:
            m.swap_rows(B, *bad)
        except AssertionError:
            continue
        fail(f"exchange of rows {bad} of {n} accepted")
    close(B, want, "a refused exchange changed the rows", 0, 0)
    U = np.triu(A[:, :n]) + 3 * np.eye(n) * np.sign(np.diag(A[:, :n]))
    aug = np.hstack([U, A[:, n:]])
    x = np.zeros(n)
    m.BackSub(aug, x)
    close(x, np.linalg.solve(U, A[:, n]), "back substitution", 1e-9, 1e-12)
    return n >= 2


CHECKS = [
    Check("spline", case(start=num(-3, 3, 0.01), kind=pick(
        "random", "random", "line", "step"), seed=ints(0, 10 ** 6),
        gaps=st.lists(num(0.1, 1.2, 0.01), min_size=1, max_size=9),
        at=st.lists(ints(0, 1000), min_size=3, max_size=10)), spline,
        quick=300, thorough=3000, jit=40),
    Check("system", case(n=ints(1, 12), seed=ints(0, 10 ** 6), kind=pick(
        "random", "permuted", "scaled", "triangular", "sparse")), system,
        quick=400, thorough=4000, jit=60),
    Check("pieces", case(n=ints(1, 8), seed=ints(0, 10 ** 6), i=ints(0, 7),
                         j=ints(0, 7)), pieces, quick=200, thorough=2000,
          jit=40),
]
