"""Curves the driver draws beside its results as benchmarks."""
import math

import numpy as np

from .. import lab, ref
from ..core import Check
from ..gen import case, fail, ints, num, pick, st
from ..shim import mod
from . import p17

QUICK_BUDGET = 40
RULE = "a point where the benchmark is above a thousandth"
ASSUMPTIONS = [
    "Boundary source of strength one and no scattering, as the benchmarks "
    "assume; points away from beam fronts.",
    "The shock is still inside the slab (the mesh of the problem needs it).",
    "What is drawn is read back from the figure (drawing backend Agg).",
]


def speed(d):
    """Speed of the shock: it is still inside the slab at the time asked."""
    return 0.99991 * min(0.3, d["v"] * d["x0"] / d["t"])


def driver(**kw):
    """The object the benchmarks are methods of, as get_results leaves it."""
    r = mod("solver_functions.run_functions").run()
    for k, v in kw.items():
        setattr(r, k, v)
    return r


def plots():
    plt = mod("solver_functions.run_functions").plt
    plt.close("all")
    return plt


def flight(x, X, t, mu, t0, sigma, breaks):
    """Flux at (x, mu > 0, t) of a unit source at -X on for 0 <= time < t0;
    None next to a front."""
    te = t - (x + X) / mu
    if min(abs(te), abs(te - t0)) < 1e-6 * (1 + t + (x + X) / mu):
        return None
    if te < 0 or te > t0:
        return 0.0
    cut = sorted({-X, x} | {b for b in breaks(te) if -X < b < x})
    mfp = ref.gl_pieces(lambda s: sigma(s, te + (s + X) / mu) / mu, cut, 48)
    return math.exp(-mfp)


def shock_case(d):
    X, v = d["x0"], speed(d)

    def sigma(s, time):
        return np.where(s + v * time >= 0,
                        np.exp(-(s + 1 + v * time) ** 2 / 4), 0.2)

    def psi(x, mu):
        if mu <= 0:
            return 0.0

        def breaks(te):
            return [-(v * te + v * X / mu) / (1 + v / mu)]
        return flight(x, X, d["t"], mu, d["t0"], sigma, breaks)
    return psi


def compare(what, got, want, tol):
    if not abs(got - want) <= tol * (1 + abs(want)):
        fail(f"{what}: {got}, not {want}")


def shock(d):
    """Angular flux of the travelling shock, any direction."""
    r = driver(v0=speed(d), t0_source=d["t0"], x0=[d["x0"]])
    psi = shock_case(d)
    hit = False
    for z, mu in zip(d["z"], d["mu"]):
        x = z * d["x0"]
        want = psi(x, mu)
        if want is None:
            continue
        compare(f"shock at x={x}, mu={mu}", r.fake_sedov(mu, d["t"], x), want,
                1e-8)
        hit = hit or want > 1e-3
    return hit


def drawn_shock(d):
    """The scalar flux drawn for the shock problem."""
    X = d["x0"]
    mus, ws = lab.angles(d["n"], d["w"])
    xs = np.linspace(-X, X, 9)
    plt = plots()
    r = driver(v0=speed(d), t0_source=d["t0"], x0=[X], tfinal=d["t"], mus=mus,
               ws=ws, xs=np.array([0.5 * xs, xs]), phi=np.ones((2, 9)))
    r.fake_sedov_benchmark()
    lines = plt.figure(4).axes[0].lines
    x, y = lines[-1].get_xdata(), lines[-1].get_ydata()
    if abs(x[0] + X) > 1e-12 or abs(x[-1] - X) > 1e-12:
        fail(f"shock benchmark drawn on {x[0]}..{x[-1]}, slab {-X}..{X}")
    psi = shock_case(d)
    hit = False
    for a, b in list(zip(x, y))[1::d["step"]]:
        p = [psi(a, mu) for mu in mus]
        if any(q is None for q in p):
            continue
        want = float(np.dot(ws, p))
        compare(f"drawn flux at x={a}", b, want, 1e-8)
        hit = hit or want > 1e-3
    plots()
    return hit


def drawn_steady(d):
    """The steady flux drawn for the Gaussian opacity, from the solver's own
    profile."""
    X = d["x0"]
    mus, ws = lab.angles(d["n"], d["w"])
    xs = np.array(d["z"]) * X
    plt = plots()
    r = driver(x0=[X], mus=mus, ws=ws, xs=xs)
    r.steady_state_gaussian_benchmark()
    ax = plt.gcf().axes[0]
    y = ax.lines[-1].get_ydata()
    for x, b in zip(xs, y):
        m = ref.gl_pieces(lambda s: p17.sigma("gaussian", 0.0, s, 0.0),
                          [-X, float(x)], 64)
        want = sum(w * math.exp(-m / mu) for mu, w in zip(mus, ws) if mu > 0)
        compare(f"steady flux at x={x}", b, want, 1e-9)
    plots()
    return True


def moving_gaussian(d):
    """The opacity bell travelling at the speed -1/4 in a slab from -5."""
    r = driver()
    v, X = -0.25, 5.0
    hit = False
    for z, mu in zip(d["z"], d["mu"]):
        mu = abs(mu)
        x = z * X
        want = flight(x, X, d["t"], mu, math.inf,
                      lambda s, t: np.exp(-(s - v * t) ** 2 / 8),
                      lambda te: np.linspace(-X, x, 5))
        if want is None:
            continue
        compare(f"bell at x={x}, mu={mu}",
                r.moving_gaussian_shock(d["t"], x, mu), want, 1e-6)
        hit = hit or want > 1e-3
    return hit


def figure_table(d):
    """The tabulated curves: drawn as listed, mirror images where the problem
    is symmetric, and decreasing with the angle or depth as exit fluxes do."""
    r = driver(mus=np.array([-0.5, 0.5]), exit_dist=np.array([[.3, .1],
                                                              [.2, .4]]))
    plt = plots()
    r.siewert_bench({"siewert1": int(d["one"]), "siewert2": int(not d["one"])})
    left, right = plt.figure(9 if d["one"] else 11), \
        plt.figure(10 if d["one"] else 12)
    for f, col, sign in ((left, 0, -1), (right, 1, 1)):
        line = f.axes[0].lines[-1]
        if list(line.get_xdata()) != [sign * m for m in (-0.5, 0.5)] or \
                list(line.get_ydata()) != list(r.exit_dist[:, col]):
            fail("exit distribution drawn on another side")
    t = [f.axes[0].lines[0].get_ydata() for f in (left, right)]
    if not d["one"] and np.max(np.abs(t[0] + t[1] - 1)) > 6e-4:
        fail("without absorption what enters must leave")
    plt = plots()
    r.olson_henderson_bench(d["tf"])
    line = plt.figure(9).axes[0].lines[0]
    x, y = line.get_xdata(), line.get_ydata()
    if np.max(np.abs(x + x[::-1])) > 1e-12 or \
            np.max(np.abs(y - y[::-1])) > 0:
        fail("square source benchmark is not symmetric")
    plots()
    return True


base = dict(t=num(0.1, 30, 0.1), x0=num(0.5, 8, 0.1), v=num(0.001, 0.95),
            t0=num(0.1, 30, 0.1), w=pick("gauss_legendre", "gauss_lobatto"),
            n=pick(2, 4, 6, 8))
zs = st.lists(num(-0.99, 1, 0.01), min_size=1, max_size=5)
angle = st.lists(num(-1, 1, 0.05).filter(bool), min_size=5, max_size=5)
CHECKS = [
    Check("shock", case(z=zs, mu=angle, **base), shock, quick=3000),
    Check("drawn_shock", case(step=ints(5, 9), **base), drawn_shock,
          quick=200, thorough=3000),
    Check("drawn_steady", case(z=zs, **base), drawn_steady, quick=300,
          thorough=4000),
    Check("moving_gaussian", case(z=zs, mu=angle, **base), moving_gaussian,
          quick=800),
    Check("figure_table", case(one=ints(0, 1), tf=pick(1.0, 5.0)),
          figure_table, quick=4, thorough=8, jit=2),
]
