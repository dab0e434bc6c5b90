"""A run approximates the solution of the transport equation."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from .. import lab, meshes
from ..core import Check
from ..gen import case, fail, ints, num, pick, st
from . import p11, p17

QUICK_BUDGET = 75
RULE = "scattering present and a mean error measured at ten or more points"
ASSUMPTIONS = [
    "The manufactured solution is the one of the moving mesh.",
    "Discretisation error: the bounds are a few times the largest error seen "
    "on resolved problems, so an error of a few parts in a thousand passes.",
    "The reference sums Fourier modes of the whole line in a periodic box "
    "that nothing crosses; sphere: r times the flux solves the slab problem.",
]


def fourier(init, src, mus, ws, st_, ss, t, t0, xs, L, K, collided=False):
    """Scalar flux of the discrete-ordinates equation on the line.  init and
    src: transforms of the isotropic initial flux and source (or None)."""
    mus, ws = np.array(mus), np.array(ws) / np.sum(ws)
    n = mus.size
    k = 2 * np.pi / L * np.arange(K + 1)

    def total(scatter):
        A = np.zeros((K + 1, n + 1, n + 1), complex)
        i = np.arange(n)
        A[:, i, i] = -1j * k[:, None] * mus - st_
        if scatter:
            A[:, :n, :n] += ss * ws
        y = np.zeros((K + 1, n + 1, 1), complex)
        y[:, n, 0] = 1.0
        on = 0.0
        if init is not None:
            y[:, :n, 0] = 0.5 * init(k)[:, None]
        if src is not None:
            A[:, :n, n] = 0.5 * src(k)[:, None]
            on = min(t, t0)
            y = expm(A * on) @ y
            A[:, :n, n] = 0
        y = expm(A * (t - on)) @ y
        return 2 * (y[:, :n, 0] @ ws)
    F = total(True)
    if collided:
        F = F - total(False)
    w = np.full(K + 1, 2.0)
    w[0] = 1.0
    return np.real(np.exp(1j * np.outer(xs, k)) @ (w * F)) / L


def bell(q, s):
    return lambda k: q * np.sqrt(np.pi) * s * np.exp(-(k * s) ** 2 / 4) + 0j


def box(q, x0):
    return lambda k: q * 2 * x0 * np.sinc(k * x0 / np.pi) + 0j


def ball(h, R):
    """Transform of x times the indicator of |x| < R, times h."""
    def f(k):
        z = np.where(k == 0, 1.0, k)
        v = 2 * (np.sin(z * R) - z * R * np.cos(z * R)) / z ** 2
        return -1j * h * np.where(k == 0, 0.0, v)
    return f


def errors(got, want):
    s = np.max(np.abs(want))
    d = np.abs(np.asarray(got, float) - want) / s
    return np.max(d), np.sqrt(np.mean(d * d))


def judge(what, got, want, top, mean):
    if not np.all(np.isfinite(got)):
        fail(f"{what}: not finite")
    a, b = errors(got, want)
    if a > top or b > mean:
        i = int(np.argmax(np.abs(np.asarray(got) - want)))
        fail(f"{what}: error {a:.3g} at most, {b:.3g} in the mean (bounds "
             f"{top:g}, {mean:g}); {np.asarray(got)[i]:.6g} for "
             f"{want[i]:.6g}")


def base(d, **kw):
    p = dict(N_ang=d["ang"], N_space=d["n"], M=d["M"], weights=d["w"],
             tfinal=d["tf"], t0=d["t0f"] * d["tf"], moving=bool(d["moving"]),
             source_strength=d["q"], sigma_t=1.0, sigma_s=d["c"], t_nodes=20)
    p.update(kw)
    return lab.full(p)


def smooth(d):
    """Bell pulse or source, the same directions as the run."""
    p11.scratch()
    s, T = d["s"], d["tf"]
    src = d["kind"] == "gaussian_source"
    p = base(d, source=meshes.SRC[d["kind"]], x0=3.5 * s, sigma=s,
             sigma_t=d["st"], sigma_s=d["st"] * d["c"])
    r = lab.solve(p, rt=1e-7, at=1e-9, mxstp=0.05 * T)
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    xs = np.array(r["xs"])
    f = bell(d["q"], s)
    L = 2 * (8 * s + T + abs(xs[-1]))
    want = fourier(None if src else f, f if src else None, mus, ws,
                   p["sigma_t"], p["sigma_s"], T, p["t0"], xs, L,
                   int(L * 10 / s / 2 / np.pi) + 8)
    judge("scalar flux", r["phi"], want, d["top"], d["mean"])
    return p["sigma_s"] > 0 and xs.size >= 10


def pulse(d):
    """Uncollided flux split off: many directions against many directions."""
    p11.scratch()
    T, x0 = d["tf"], d["x0"]
    kind = d["kind"]
    if kind.startswith("gaussian"):
        x0 = 3.5 * d["s"]
    if kind == "plane":
        x0 = 1e-6
    p = base(d, source=meshes.SRC[kind], x0=x0, sigma=d["s"], uncollided=True)
    if kind == "plane" or not kind.endswith("source"):
        p["t0"] = T
    r = lab.solve(p, rt=1e-6, at=1e-8, mxstp=0.05 * T)
    xs = np.array(r["xs"])
    mus, ws = np.polynomial.legendre.leggauss(64 if kind == "plane" else 24)
    ok = np.abs(xs) < 0.8 * T + x0          # inside the front of a plane pulse
    L = 2 * (x0 + T + abs(xs[-1])) + 4
    q = d["q"]
    f = {"plane": lambda k: q + 0j * k, "square": box(q, x0),
         "square_source": box(q, x0), "gaussian": bell(q, d["s"]),
         "gaussian_source": bell(q, d["s"])}[kind]
    src = kind.endswith("source")
    want = fourier(None if src else f, f if src else None, mus, ws, 1.0,
                   d["c"], T, p["t0"], xs[ok], L,
                   150 if kind == "plane" else 300, collided=True)
    psi = np.array(r["psi"])
    w = lab.angles(p["N_ang"], p["weights"])[1]
    judge("collided scalar flux", (w @ psi)[ok], want,
          *((0.4, 0.18) if kind == "plane" else (d["top"], d["mean"])))
    return d["c"] > 0 and xs.size >= 10


def sphere(d):
    """Ball pulse: r phi(r) is the odd solution on the line."""
    p11.scratch()
    T, R = d["tf"], d["x0"]
    p = base(d, geom="sphere", source=meshes.SRC["shell"], x0=R,
             uncollided=True, source_strength=1.0)
    r = lab.solve(p, rt=1e-5, at=1e-7, mxstp=0.1 * T)
    xs = np.array(r["xs"])
    mus, ws = np.polynomial.legendre.leggauss(24)
    h = 3 / 4 / np.pi / R ** 3
    L = 2 * (R + T + abs(xs[-1])) + 4
    want = fourier(ball(h, R), None, mus, ws, 1.0, d["c"], T, T, xs, L, 300,
                   collided=True) / xs
    w = lab.angles(p["N_ang"], p["weights"])[1]
    got = w @ np.array(r["psi"])
    judge("collided scalar flux", got * xs ** d["pow"],
          want * xs ** d["pow"], d["top"], d["mean"])
    return d["c"] > 0 and xs.size >= 10


def mms(d):
    """The manufactured solution, known in closed form."""
    p11.scratch()
    T = d["tf"]
    p = base(dict(d, moving=1), source=meshes.SRC["mms"], x0=d["x0"],
             sigma_s=1.0, source_strength=1.0)
    r = lab.solve(p, rt=1e-8, at=1e-10, mxstp=0.05 * T)
    xs = np.array(r["xs"])
    want = np.exp(-xs * xs / 2) / 2 / (1 + T)
    for l in range(p["N_ang"]):
        judge(f"angular flux, direction {l}", np.array(r["psi"])[l], want,
              d["top"], d["mean"])
    judge("scalar flux", r["phi"], 2 * want, d["top"], d["mean"])
    return xs.size >= 10


def steady(p, sides, q, xs):
    """Steady angular flux between two driven faces: two-point problem."""
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    wn = np.array(ws) / np.sum(ws)
    n, X = mus.size, p["x0"]

    def rate(x, y):
        s = p17.sigma(p["sigma_func"], 0.0, np.array([x]), 0.0)[0]
        Y = y.reshape(n, n)
        return ((-p["sigma_t"] * Y + p["sigma_s"] * (wn @ Y)) * s
                / mus[:, None]).ravel()
    Y, at = np.eye(n), -X
    grid = {}
    # the opacity may jump at the centre
    for stop, inside in ((0.0, xs[xs <= 0]), (X, xs[xs > 0])):
        stops = np.append(inside, stop)
        r = solve_ivp(rate, (at, stop), Y.ravel(), method="DOP853",
                      t_eval=stops, rtol=1e-9, atol=1e-12)
        for x, y in zip(stops, r.y.T):
            grid[float(x)] = y.reshape(n, n)
        Y, at = r.y[:, -1].reshape(n, n), stop + 1e-13
    into, out = mus > 0, mus < 0
    left = np.zeros(n)
    left[into] = q * sides[0]
    rhs = np.full(out.sum(), q * sides[1]) - Y[out][:, into] @ left[into]
    left[out] = np.linalg.solve(Y[out][:, out], rhs)
    psi = np.array([grid[float(x)] @ left for x in xs]).T
    return psi, left, Y @ left


def driven(d):
    """Flux through the faces of a slab until nothing changes any more."""
    p11.scratch()
    q, X = d["q"], d["x0"]
    mus = lab.angles(d["ang"], d["w"])[0]
    sides = d["sides"] if any(d["sides"]) else (1, 0)
    T = 9 * X / np.min(np.abs(mus)) + 2
    p = base(d, source=meshes.SRC["boundary"], x0=X, sigma_t=d["st"],
             sigma_s=d["st"] * d["c"], sigma_func=d["opacity"],
             Msigma=0 if d["opacity"] == "constant" else 3, tfinal=T,
             t0=2 * T, boundary_on=sides, boundary_source=1,
             boundary_source_strength=q)
    r = lab.solve(p, rt=1e-4, at=1e-6 * q, mxstp=0.05 * T,
                  integrator=d["method"])
    xs = np.array(r["xs"])
    psi, left, right = steady(p, sides, q, xs)
    ws = lab.angles(p["N_ang"], p["weights"])[1]
    judge("scalar flux of the driven slab", r["phi"], ws @ psi, 8e-3, 4e-3)
    for l in range(mus.size):
        s = max(np.max(np.abs(psi[l])), 0.2 * np.max(np.abs(psi)))
        judge(f"angular flux, mu={mus[l]:.3f}",
              np.append(r["psi"][l], s), np.append(psi[l], s), 8e-3, 4e-3)
    ex = np.array(r["exit_dist"])
    judge("leaving at the left", np.append(ex[mus < 0, 0], q),
          np.append(left[mus < 0], q), 5e-3, 5e-3)
    judge("leaving at the right", np.append(ex[mus > 0, 1], q),
          np.append(right[mus > 0], q), 5e-3, 5e-3)
    return p["sigma_s"] > 0 and xs.size >= 10


def shock(d):
    """The travelling shock with and without the uncollided flux split off,
    once the slowest beam has crossed."""
    p11.scratch()
    X, q = d["x0"], d["q"]
    mus = np.abs(lab.angles(d["ang"], d["w"])[0])
    T = 2 * X / np.min(mus) * (1.15 + d["more"]) + 0.2
    v = min(0.9 * X / T, 0.8 * np.min(mus)) * d["frac"]
    p = base(dict(d, moving=1), source=meshes.SRC["boundary"], x0=X,
             sigma_func="fake_sedov", Msigma=4, tfinal=T, t0=2 * T,
             boundary_on=(1, 0), boundary_source=1,
             boundary_source_strength=q, fake_sedov_v0=v)
    o = dict(rt=1e-4, at=1e-6 * q, mxstp=0.05 * T, integrator="RK45")
    a = lab.solve(p, **o)
    b = lab.solve(dict(p, uncollided=True), **o)
    judge("shock, split", b["phi"], np.array(a["phi"]), 0.03, 0.015)
    judge("shock, split, ends", b["exit_phi"], np.array(a["exit_phi"]), 0.03,
          0.03)
    return p["sigma_s"] > 0 and np.size(a["xs"]) >= 10


common = dict(moving=ints(0, 1), w=pick("gauss_lobatto", "gauss_legendre"),
              t0f=num(0.2, 0.9, 0.05), q=num(0.5, 2, 0.1),
              c=num(0.1, 1.2, 0.05))
CHECKS = [
    Check("smooth",
          case(kind=pick("gaussian", "gaussian_source"), n=pick(8, 10),
               M=pick(3, 4), ang=pick(2, 4, 6), s=num(0.3, 1.5, 0.1),
               tf=num(0.3, 2, 0.1), st=num(0.3, 1.5, 0.1),
               top=st.just(0.05), mean=st.just(0.015), **common),
          smooth, quick=60, thorough=800, jit=12),
    Check("pulse",
          case(kind=pick("plane", "square", "square_source", "gaussian",
                         "gaussian_source"), n=st.just(8), M=pick(2, 3),
               ang=st.just(8), s=num(0.4, 1, 0.1), x0=num(0.3, 1.5, 0.1),
               tf=num(0.5, 2, 0.1), top=st.just(0.1), mean=st.just(0.05),
               **common),
          pulse, quick=40, thorough=600, jit=12),
    Check("sphere",
          case(n=pick(4, 5, 6), M=st.just(2), ang=pick(12, 16),
               x0=num(0.5, 1.5, 0.1), tf=num(0.3, 1.2, 0.1), pow=ints(1, 2),
               top=st.just(0.3), mean=st.just(0.1), **common),
          sphere, quick=24, thorough=300, jit=8),
    Check("mms",
          case(n=pick(4, 6), M=pick(4, 5), ang=pick(2, 4), x0=num(0.5, 2, 0.1),
               tf=num(0.3, 2, 0.1), top=st.just(0.02), mean=st.just(5e-3),
               **common),
          mms, quick=40, thorough=600, jit=8),
    Check("driven",
          case(n=pick(4, 6), M=pick(2, 3), ang=pick(2, 4),
               x0=num(0.2, 0.8, 0.1), st=num(0.3, 1.2, 0.1),
               sides=st.tuples(ints(0, 1), ints(0, 1)),
               opacity=pick("constant", "gaussian", "siewert1", "siewert2",
                            "fake_sedov"),
               method=pick("RK45", "DOP853", "BDF"), tf=st.just(1.0),
               **dict(common, c=num(0.0, 0.8, 0.1))),
          driven, quick=16, thorough=200, jit=8),
    Check("shock",
          case(n=st.just(6), M=st.just(2), ang=pick(2, 4),
               x0=num(0.2, 1, 0.1), frac=num(0.1, 1, 0.1),
               more=num(0, 0.5, 0.1), tf=st.just(1.0),
               **dict(common, c=num(0.1, 1.0, 0.1))),
          shock, quick=8, thorough=100, jit=8),
]
