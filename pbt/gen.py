"""Strategies and small helpers shared by the property modules."""
import numpy as np

from .core import Violation, hypothesis

h = hypothesis()
st = h.strategies


def num(lo, hi, step=0.001):
    """A decimal in [lo, hi]: integers scaled, so that failures shrink."""
    a, b = int(np.ceil(lo / step - 1e-9)), int(np.floor(hi / step + 1e-9))
    k = round(1 / step)
    return st.integers(a, b).map(lambda i: i / k)


def ints(lo, hi):
    return st.integers(lo, hi)


def pick(*xs):
    return st.sampled_from(list(xs))


def rarely(common, *extremes):
    """Mostly the common strategy, one time in seven an extreme value."""
    return st.one_of(*[common.map(lambda x: x) for _ in range(6)],
                     pick(*extremes))


def widths(lo, hi, least, most):
    """Cell widths: a few cells, one time in ten many cells."""
    w = num(lo, hi)
    few = st.lists(w, min_size=least, max_size=most)
    many = st.tuples(st.lists(w, min_size=2, max_size=3),
                     st.sampled_from([17, 33, 40, 65])).map(
        lambda a: [a[0][i % len(a[0])] for i in range(a[1])])
    return st.one_of(*[few.map(lambda x: x) for _ in range(9)], many)


def seed():
    return st.integers(0, 10 ** 6)


def rng(s):
    return np.random.default_rng(s)


def coeffs(spec, shape):
    """A coefficient array from {"kind": ..., "seed": ...}."""
    r = rng(spec["seed"])
    n = int(np.prod(shape))
    if spec["kind"] == "onehot":
        v = np.zeros(n)
        v[spec["seed"] % n] = 1.0
        return v.reshape(shape)
    if spec["kind"] == "smooth":        # decaying in the last index
        v = r.normal(size=shape)
        return v * 0.5 ** np.arange(shape[-1])
    return r.normal(size=shape)


def coeff_spec():
    return st.fixed_dictionaries({"kind": pick("random", "onehot", "smooth"),
                                  "seed": seed()})


def case(**kw):
    return st.fixed_dictionaries(kw)


def fail(msg):
    raise Violation(msg)


def close(got, want, what, rtol=1e-9, atol=1e-11):
    """Scaled comparison: the error is measured against the largest entry."""
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        fail(f"{what}: not finite: {got.ravel()[:8]}")
    scale = np.max(np.abs(want))
    err = np.abs(got - want)
    if np.max(err) > atol + rtol * scale:
        i = int(np.argmax(err))
        fail(f"{what}: {got.ravel()[i]:.12g} instead of "
             f"{want.ravel()[i]:.12g} (entry {i}, scale {scale:.3g})")


def cells(n, gaps, start, sign=None):
    """Edges from a start and positive gaps."""
    return np.concatenate([[start], start + np.cumsum(gaps[:n])])
