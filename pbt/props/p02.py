"""Basis functions of the spatial expansion."""
import numpy as np

from .. import gen, ref, shim
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st

RULE = "order >= 2 on a cell that is not the reference interval"
ASSUMPTIONS = ["Orders up to 11 (Legendre 30) and cells of positive width."]

zs = st.lists(num(-1, 1, 0.0001), min_size=1, max_size=6)
widths = st.one_of(num(0.01, 8), st.integers(1, 9).map(lambda k: 10.0 ** -k))


def _cell(d):
    a = d["a"]
    b = a + d["w"]
    x = 0.5 * (b - a) * np.array(d["z"], float) + 0.5 * (a + b)
    return a, b, x


def legendre(d):
    f = shim.mod("solver_classes.functions")
    a, b, x = _cell(d)
    n = d["n"]
    want = ref.leg(n, x, a, b)
    s = np.sqrt((2 * n + 1) / (b - a))
    cond = 1e-12 * (1 + (n + 1) ** 2 * (1 + abs(a)) / (b - a))
    close(f.normPn(n, x, a, b), want, f"P{n} on [{a},{b}]", 0, s * cond)
    for k, xx in enumerate(x):
        close(f.normPn_scalar(n, float(xx), a, b), want[k],
              f"scalar P{n}", 0, s * cond)
    z = np.array(d["z"], float)
    pz = ref.leg(n, z, -1.0, 1.0) / np.sqrt((2 * n + 1) / 2)
    close(f.Pn(n, z, a, b), pz, f"plain P{n}", 0, 1e-11)
    close(f.Pn_scalar(n, float(z[0]), a, b), pz[0], "plain scalar", 0, 1e-11)
    return n >= 2 and (a, b) != (-1, 1)


def derivative(d):
    f = shim.mod("solver_classes.functions")
    a, b, x = _cell(d)
    n = d["n"]
    want = ref.dleg(n, x, a, b)
    s = np.sqrt((2 * n + 1) / (b - a)) * 2 / (b - a) * max(1, n * n)
    cond = 1e-11 * (1 + (n + 1) ** 2 * (1 + abs(a)) / (b - a))
    close(f.dx_normPn(n, x, a, b), want, f"dP{n}/dx on [{a},{b}]", 0, s * cond)
    return n >= 2 and (a, b) != (-1, 1)


def chebyshev(d):
    f = shim.mod("solver_classes.functions")
    a, b, x = _cell(d)
    n = d["n"]
    want = ref.cheb(n, x, a, b)
    s = 1 / np.sqrt(b - a)
    cond = 1e-11 * (1 + (n + 1) ** 2 * (1 + abs(a)) / (b - a))
    close(f.normTn(n, x, a, b), want, f"T{n} on [{a},{b}]", 0, s * cond)
    z = np.array(d["z"], float)
    close([f.eval_Tn(n, float(v)) for v in z], np.cos(n * np.arccos(z)),
          f"T{n}", 0, 1e-10)
    inner = np.abs(z) < 1
    if inner.any():
        xi = x[inner]
        got = f.weight_func_Tn(xi, a, b)
        if np.all((xi > a) & (xi < b)):
            zz = 2 * (xi - a) / (b - a) - 1
            w = 2 / np.sqrt((1 - zz) * (1 + zz))
            if np.all(np.abs(np.abs(zz) - 1) > 1e-3):
                close(got, w, "weight", 1e-6 * (1 + abs(a) / (b - a)), 1e-9)
    return n >= 2 and (a, b) != (0, 1)


def orthonormal(d):
    """Any two members of a basis, by quadrature exact for the product."""
    f = shim.mod("solver_classes.functions")
    a, b, i, j = d["a"], d["a"] + d["w"], d["i"], d["j"]
    if d["geom"] == "slab":
        z, w = np.polynomial.legendre.leggauss(i + j + 2)
        x = 0.5 * (b - a) * z + 0.5 * (a + b)
        got = 0.5 * (b - a) * np.sum(w * f.normPn(i, x, a, b)
                                     * f.normPn(j, x, a, b))
    else:
        n = i + j + 2
        z = np.cos((2 * np.arange(1, n + 1) - 1) * np.pi / 2 / n)
        x = 0.5 * (b - a) * z + 0.5 * (a + b)
        # the weight carries (b-a): the rule is pi/n with the inverse root
        got = (b - a) * np.sum(np.pi / n * f.normTn(i, x, a, b)
                               * f.normTn(j, x, a, b))
    cond = 1e-11 * (1 + (i + j + 1) ** 2 * (1 + abs(a)) / (b - a))
    close(got, 1.0 if i == j else 0.0,
          f"{d['geom']} <{i},{j}> on [{a},{b}]", 0, cond)
    return max(i, j) >= 2


def sqrt2(d):
    """Shared small functions the matrices and the state vector rely on."""
    f = shim.mod("solver_classes.functions")
    v = np.array(d["v"], float)
    close(f.heaviside_vector(v), (v >= 0) * 1.0, "step", 0, 0)
    for x in v:
        if f.heaviside_scalar(float(x)) != (1.0 if x >= 0 else 0.0):
            fail(f"step({x})")
    s = f.shaper(d["ang"], d["sp"], d["M"], bool(d["th"]))
    if list(s) != [d["ang"] + d["th"], d["sp"], d["M"] + 1]:
        fail(f"state shape {list(s)}")
    if f.kronecker(d["M"]) != (1.0 if d["M"] == 0 else 0.0):
        fail("kronecker")
    return len(v) > 1


CHECKS = [
    Check("legendre", case(n=ints(0, 30), a=num(-20, 20), w=widths, z=zs),
          legendre, quick=3200),
    Check("derivative", case(n=ints(0, 11), a=num(-20, 20), w=widths, z=zs),
          derivative, quick=3200),
    Check("chebyshev", case(n=ints(0, 12), a=num(0, 20), w=widths, z=zs),
          chebyshev, quick=3200),
    Check("orthonormal", case(i=ints(0, 12), j=ints(0, 12), a=num(-20, 20),
                              w=widths, geom=pick("slab", "sphere")),
          orthonormal, quick=2400),
    Check("helpers", case(v=st.lists(num(-2, 2), min_size=1, max_size=5),
                          ang=ints(1, 64), sp=ints(1, 64), M=ints(0, 11),
                          th=ints(0, 1)), sqrt2, quick=600),
]
