"""Reference mathematics, written from the definitions and not from the code:
basis functions, numerical integration, coefficient tables."""
import math
import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as Lg
from numpy.polynomial import polynomial as P

GLX, GLW = Lg.leggauss(64)


def gl(f, a, b, n=None):
    """Gauss-Legendre integral of a vectorised f over [a, b]."""
    x, w = (GLX, GLW) if n is None else Lg.leggauss(n)
    return 0.5 * (b - a) * float(np.sum(w * f(0.5 * (b - a) * x + 0.5 * (a + b))))


def gl_pieces(f, points, n=None):
    """The same over the pieces between sorted break points."""
    pts = sorted(points)
    return sum(gl(f, p, q, n) for p, q in zip(pts[:-1], pts[1:]) if q > p)


def leg(i, x, a, b):
    """Orthonormal Legendre polynomial i on [a, b]."""
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    c = np.zeros(i + 1)
    c[i] = 1
    return math.sqrt((2 * i + 1) / (b - a)) * Lg.legval(z, c)


def dleg(i, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    c = np.zeros(i + 1)
    c[i] = 1
    return math.sqrt((2 * i + 1) / (b - a)) * Lg.legval(z, Lg.legder(c)) * 2 / (b - a)


def cheb(i, x, a, b):
    """Chebyshev basis function i on [a, b], orthonormal in the weight
    (b-a)/sqrt((x-a)(b-x))."""
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    c = np.zeros(i + 1)
    c[i] = 1
    k = 1.0 if i == 0 else math.sqrt(2.0)
    return k / math.sqrt(math.pi * (b - a)) * C.chebval(z, c)


def dcheb(i, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    c = np.zeros(i + 1)
    c[i] = 1
    k = 1.0 if i == 0 else math.sqrt(2.0)
    return k / math.sqrt(math.pi * (b - a)) * C.chebval(z, C.chebder(c)) * 2 / (b - a)


def basis(geom):
    return (leg, dleg) if geom == "slab" else (cheb, dcheb)


def dt_basis(geom, i, x, a, b, ap, bp):
    """d/dt of basis function i at fixed x while the edges move at ap, bp."""
    f, df = basis(geom)
    h = b - a
    z = (2 * x - a - b) / h
    # B = s(h) p(z), s ~ h^-1/2;  dz/dt = (-(ap+bp) - z (bp-ap)) / h
    return (-0.5 * (bp - ap) / h * f(i, x, a, b)
            + df(i, x, a, b) * (h / 2) * (-(ap + bp) - z * (bp - ap)) / h)


def sphere_mats(K, a, b, ap, bp):
    """Mass, J, L, G and d(Mass)/dt by quadrature (exact for polynomials)."""
    n = K + 6
    x, w = Lg.leggauss(n)
    r = 0.5 * (b - a) * x + 0.5 * (a + b)
    w = 0.5 * (b - a) * w
    B = np.array([cheb(i, r, a, b) for i in range(K)])
    dB = np.array([dcheb(i, r, a, b) for i in range(K)])
    tB = np.array([dt_basis("sphere", i, r, a, b, ap, bp) for i in range(K)])
    Mass = (B * (w * r * r)) @ B.T
    J = (B * (w * r)) @ B.T
    L = (dB * (w * r * r)) @ B.T
    G = (tB * (w * r * r)) @ B.T
    # d/dt of the integral over the moving cell
    edge = lambda rr, v: v * rr * rr * np.outer(
        [float(cheb(i, rr, a, b)) for i in range(K)],
        [float(cheb(i, rr, a, b)) for i in range(K)])
    MP = G + G.T + edge(b, bp) - edge(a, ap)
    return Mass, J, L, G, MP


def slab_mats(K, a, b, ap, bp):
    n = K + 6
    x, w = Lg.leggauss(n)
    r = 0.5 * (b - a) * x + 0.5 * (a + b)
    w = 0.5 * (b - a) * w
    B = np.array([leg(i, r, a, b) for i in range(K)])
    dB = np.array([dleg(i, r, a, b) for i in range(K)])
    tB = np.array([dt_basis("slab", i, r, a, b, ap, bp) for i in range(K)])
    return (dB * w) @ B.T, (tB * w) @ B.T


def _tt(i, j, k, deriv=False):
    """integral over [-1,1] of z^k T_i(z) T_j(z)  (T_i' when deriv)."""
    ci = np.zeros(i + 1)
    ci[i] = 1
    cj = np.zeros(j + 1)
    cj[j] = 1
    pi_, pj = C.cheb2poly(ci), C.cheb2poly(cj)
    if deriv:
        pi_ = P.polyder(pi_) if i > 0 else np.zeros(1)
    p = P.polymul(pi_, pj)
    p = np.concatenate([np.zeros(k), p])
    q = P.polyint(p)
    return P.polyval(1.0, q) - P.polyval(-1.0, q)


def denominators(K):
    i, j = np.meshgrid(np.arange(K), np.arange(K), indexing="ij")
    return (1 + (7 * i + 3 * j) % 5).astype(np.int64)


def coefficient_tables(K, Nv=1):
    """The tables the solver reads from matrix_files: per element an integer
    denominator and the coefficients of (rL^2, rL rR, rR^2), (rL^2, rR^2),
    (rL, rR)...  In those files an element with one zero index carries the
    factor of an element with none (times 1/2 for Mass when i+j is even), which
    the solver takes back out."""
    den = denominators(K)
    me, mo = np.zeros((K, K, 3)), np.zeros((K, K, 2))
    jc, gc = np.zeros((K, K, 2)), np.zeros((K, K, 6))
    le, lo = np.zeros((K, K, 2)), np.zeros((K, K, 3))
    for i in range(K):
        for j in range(K):
            d = den[i, j]
            zi, zj = (i == 0), (j == 0)
            cc = 1.0 if zi and zj else (math.sqrt(2) if zi or zj else 2.0)
            if zi != zj:
                other = j if zi else i
                r = math.sqrt(2) if other % 2 == 0 else 1 / math.sqrt(2)
            else:
                r = 1.0
            if (i + j) % 2 == 0:
                I0, I2 = _tt(i, j, 0), _tt(i, j, 2)
                me[i, j] = np.array([I0 + I2, 2 * (I0 - I2), I0 + I2]) / 4 * cc / 2 / r * d
            else:
                I1 = _tt(i, j, 1)
                mo[i, j] = np.array([-I1, I1]) / 2 * cc / 2 / r * d
            I0, I1 = _tt(i, j, 0), _tt(i, j, 1)
            jr = math.sqrt(2) if zi != zj else 1.0
            jc[i, j] = np.array([I0 - I1, I0 + I1]) / 2 * cc / 2 * jr * d
            if i > 0:
                lr = math.sqrt(2) if zj else 1.0
                if (i + j) % 2 == 0:
                    K1 = _tt(i, j, 1, True)
                    le[i, j] = np.array([K1, K1]) / 2 * cc / lr * d
                else:
                    K0, K2 = _tt(i, j, 0, True), _tt(i, j, 2, True)
                    lo[i, j] = -np.array([K0 + K2, 2 * (K0 - K2), K0 + K2]) / 4 * cc / lr * d
    vden = np.ones((Nv, K, K), dtype=np.int64)
    return dict(Mass_denom=den, J_denom=den.copy(), G_denom=den.copy(),
                L_denom=den.copy(), VV_denom=vden, Mass_even=me, Mass_odd=mo,
                J=jc, G=gc, L_even=le, L_odd=lo,
                VV_even=np.zeros((Nv, K, K, 3)), VV_odd=np.zeros((Nv, K, K, 2)))


ORDER = ("Mass_denom", "J_denom", "G_denom", "L_denom", "VV_denom",
         "Mass_even", "Mass_odd", "J", "G", "L_even", "L_odd", "VV_even",
         "VV_odd")


def write_matrix_files(folder, K):
    """Write the five h5 files of the external contract into `folder`."""
    import h5py
    import os
    os.makedirs(folder, exist_ok=True)
    t = coefficient_tables(K)
    spec = {"MassMatrix": ("Mass_denom", ("Mass_even", "Mass_odd")),
            "JMatrix": ("J_denom", ("J", "J")),
            "GMatrix": ("G_denom", ("G", "G")),
            "LMatrix": ("L_denom", ("L_even", "L_odd")),
            "VVMatrix": ("VV_denom", None)}
    for name, (den, co) in spec.items():
        with h5py.File(os.path.join(folder, name + ".h5"), "w") as f:
            f["denominators"] = t[den]
            g = f.create_group("coefficients")
            if co is None:
                continue
            for i in range(K):
                for j in range(K):
                    src = co[0] if (i + j) % 2 == 0 else co[1]
                    g[f"Element{i+1}{j+1}"] = t[src][i, j].reshape(1, -1)


def lobatto(n):
    """Gauss-Lobatto nodes, independent of the code (roots of P'_{n-1})."""
    if n == 1:
        return np.array([1.0])
    c = np.zeros(n)
    c[-1] = 1
    inner = np.sort(Lg.legroots(Lg.legder(c)).real) if n > 2 else np.array([])
    return np.concatenate([[-1.0], inner, [1.0]])


def lobatto_ws(n):
    x = lobatto(n)
    c = np.zeros(n)
    c[-1] = 1
    return 2.0 / (n * (n - 1) * Lg.legval(x, c) ** 2)
