"""Quadrature rules."""
import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as Lg

from .. import gen, ref, shim
from ..core import Check
from ..gen import case, close, fail, ints, pick, st

RULE = "n >= 3 and the polynomial has degree >= 2"
ASSUMPTIONS = ["The Gauss-Lobatto rule is asked for two or more points."]

coef = st.lists(ints(-9, 9), min_size=1, max_size=12)


def _exact(c, name):
    """The integral of a Legendre (or Chebyshev) series is its first term."""
    return 2.0 * c[0] if name != "chebyshev" else np.pi * c[0]


def one_rule(d):
    f = shim.mod("solver_classes.functions")
    n, name = d["n"], d["name"]
    xs, ws = f.quadrature(n, name)
    xs, ws = np.array(xs, float), np.array(ws, float)
    if xs.shape != (n,) or ws.shape != (n,):
        fail(f"{name}({n}): {xs.shape} nodes and {ws.shape} weights")
    if not (np.all(np.isfinite(xs)) and np.all(ws > 0)):
        fail(f"{name}({n}): a weight is not positive")
    if np.max(np.abs(xs)) > 1 + 1e-14:
        fail(f"{name}({n}): node outside [-1,1]")
    order = np.sort(xs)
    if n > 1 and np.min(np.diff(order)) <= 0:
        fail(f"{name}({n}): nodes are not distinct")
    if name != "chebyshev" and np.any(order != xs):
        fail(f"{name}({n}): nodes are not in increasing order")
    close(order, -order[::-1], f"{name}({n}) symmetric nodes", 0, 1e-12)
    wo = ws[np.argsort(xs)]
    close(wo, wo[::-1], f"{name}({n}) symmetric weights", 0, 1e-12)
    if name == "gauss_lobatto" and (xs[0] != -1 or xs[-1] != 1):
        fail(f"lobatto({n}): end points {xs[0]}, {xs[-1]}")
    deg = 2 * n - 3 if name == "gauss_lobatto" else 2 * n - 1
    # a sparse series whose highest term is the last degree integrated exactly
    c = np.zeros(deg + 1)
    for k, v in enumerate(d["coef"]):
        c[min(deg, k * deg // max(1, len(d["coef"]) - 1))] += v
    c[deg] += 3.0
    ev = C.chebval if name == "chebyshev" else Lg.legval
    got = float(np.sum(ws * ev(xs, c)))
    want = _exact(c, name)
    tol = 1e-10 * (1 + np.sum(np.abs(c)))
    if abs(got - want) > tol:
        fail(f"{name}({n}) of a degree {deg} polynomial: {got} not {want}")
    return n >= 3


def composite(d):
    """integrate_quad on an arbitrary interval."""
    f = shim.mod("solver_classes.functions")
    a, b, n = d["a"], d["a"] + d["w"], d["n"]
    xs, ws = f.quadrature(n, "gauss_legendre")
    p = np.polynomial.Polynomial(d["p"][:n])
    q = np.polynomial.Polynomial(d["q"][:n])
    got = f.integrate_quad(a, b, xs, ws, p, q)
    anti = (p * q).integ()
    want = anti(b) - anti(a)
    scale = sum(abs(v) for v in d["p"]) * sum(abs(v) for v in d["q"]) \
        * (1 + abs(a) + abs(b)) ** (2 * n)
    if abs(got - want) > 1e-11 * (1 + scale):
        fail(f"integral over [{a},{b}] is {got}, not {want}")
    return n >= 3 and len(d["p"]) > 1


def nodes(d):
    """Output points of a mesh: M (at least one) per cell, inside the cell."""
    f = shim.mod("solver_classes.functions")
    edges = np.concatenate([[d["x"]], d["x"] + np.cumsum(d["gaps"])])
    M = d["M"]
    g = shim.D(slab=d["geom"] == "slab", sphere=d["geom"] == "sphere")
    xs = np.array(f.find_nodes(edges, M, g), float)
    m = max(M, 1)
    if xs.shape != ((edges.size - 1) * m,):
        fail(f"{xs.size} points for {edges.size-1} cells and M={M}")
    xs = xs.reshape(-1, m)
    if d["geom"] == "slab":
        z = Lg.leggauss(m)[0]
    else:
        k = np.arange(1, m + 1)
        z = np.sort(np.cos((2 * k - 1) * np.pi / 2 / m))
    a, b = edges[:-1, None], edges[1:, None]
    close(xs, 0.5 * (b - a) * z + 0.5 * (a + b), "output points", 1e-12)
    return len(d["gaps"]) >= 2 and M >= 2


CHECKS = [
    Check("rule", case(n=ints(2, 80), coef=coef,
                       name=pick("gauss_legendre", "gauss_lobatto",
                                 "chebyshev")), one_rule, quick=2400, jit=600),
    Check("rule_large", case(n=ints(81, 520), coef=coef,
                             name=pick("gauss_legendre", "gauss_lobatto",
                                       "chebyshev")), one_rule,
          quick=240, jit=60),
    Check("interval", case(a=gen.num(-5, 5), w=gen.num(0.01, 6), n=ints(1, 6),
                           p=coef, q=coef), composite, quick=1600),
    Check("output_points", case(x=gen.num(-5, 5), M=ints(0, 8),
                                gaps=st.lists(gen.num(0.01, 3), min_size=1,
                                              max_size=8),
                                geom=pick("slab", "sphere")), nodes,
          quick=1600),
]
