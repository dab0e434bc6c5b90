"""A run conserves particles and moves them at their speed."""
import numpy as np
from numpy.polynomial import legendre as Lg
from scipy.linalg import expm

from .. import lab, meshes, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st
from . import p09, p11

QUICK_BUDGET = 75
RULE = "a run with scattering, four or more cells and particles in it"
ASSUMPTIONS = [
    "The ends of a moving mesh outrun the particles (edge speed one).",
    "The flow through the ends of a static mesh is integrated in time from "
    "the reported exit flux by Gauss rules, to one part in 2000.",
    "Moments up to the order of the basis are compared, the second at most.",
]
# what is projected without error (edges of the pulse on cell edges)
EXACT = ["plane", "square", "square_source"]
SMOOTH = ["gaussian", "gaussian_source"]


def par(d):
    p = meshes.params(d)
    p.update(M=d["M"], N_ang=d["ang"], weights=d["w"], sigma_t=d["st"],
             sigma_s=d["st"] * d["c"], source_strength=d["q"],
             uncollided=False)
    return lab.full(p)


def data(p, kind, x0):
    """Initial moments and source moments (per direction, halved)."""
    q = p["source_strength"]
    s = p["sigma"]
    box = [2 * q * x0, 0.0, 2 * q * x0 ** 3 / 3]
    bell = [q * np.sqrt(np.pi) * s, 0.0, q * np.sqrt(np.pi) * s ** 3 / 2]
    if kind == "plane":
        return [q, 0.0, q * x0 * x0 / 3], None
    if kind in ("square", "gaussian"):
        return (box if kind == "square" else bell), None
    return None, (box if kind == "square_source" else bell)


def moments(p, init, src, t, t0, J):
    """Exact moments m[l, j] of the discrete-ordinates equation."""
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    n = p["N_ang"]
    ws = np.array(ws) / np.sum(ws)
    A = np.zeros((n * J + 1, n * J + 1))
    y = np.zeros(n * J + 1)
    y[-1] = 1.0
    for j in range(J):
        for i in range(n):
            r = j * n + i
            A[r, r] -= p["sigma_t"]
            A[r, j * n:(j + 1) * n] += p["sigma_s"] * ws
            if j:
                A[r, (j - 1) * n + i] += j * mus[i]
            if init is not None:
                y[r] = 0.5 * init[j]
            if src is not None:
                A[r, -1] = 0.5 * src[j]
    on = min(t, t0) if src is not None else 0.0
    y = expm(A * on) @ y
    A[:, -1] = 0.0
    y = expm(A * (t - on)) @ y
    return y[:-1].reshape(J, n).T


def computed(p, u, e, J):
    """Moments of the returned coefficients."""
    z, w = Lg.leggauss(p["M"] + 3)
    out = np.zeros((p["N_ang"], J))
    for k, (a, b) in enumerate(zip(e[:-1], e[1:])):
        y, ww = 0.5 * (b - a) * z + 0.5 * (a + b), 0.5 * (b - a) * w
        B = np.array([ref.leg(i, y, a, b) for i in range(p["M"] + 1)])
        f = u[:, k, :] @ B
        for j in range(J):
            out[:, j] += f @ (ww * y ** j)
    return out


def balance(d):
    """Moving mesh: no particle can leave."""
    p11.scratch()
    p = par(dict(d, moving=1))
    if d["kind"] in SMOOTH:                 # the bell fits in the mesh
        p["x0"], p["sigma"] = 4 * p["x0"], p["x0"]
    T = p["tfinal"]
    J = min(p["M"] + 1, 3)
    r = lab.solve(p, rt=1e-9, at=1e-11, mxstp=0.05 * T)
    init, src = data(p, d["kind"], p["x0"])
    want = moments(p, init, src, T, p["t0"], J)
    got = computed(p, np.array(r["sol"]), np.array(r["edges"]), J)
    L = p["x0"] + T
    for j in range(J):
        close(got[:, j], want[:, j], f"moment {j} of every direction", 0,
              d["tol"] * np.max(want[:, 0]) * L ** j)
    return d["c"] > 0


def leak(d):
    """Static mesh: what is missing has left through the ends."""
    p11.scratch()
    p = par(dict(d, moving=0))
    q, T = p["source_strength"], p["tfinal"]
    kind = d["kind"]
    if kind in SMOOTH:
        p["x0"], p["sigma"] = 4 * p["x0"], p["x0"]
    if kind == "boundary":
        p.update(fake_sedov_v0=0.0, boundary_on=d["sides"],
                 boundary_source=1, boundary_source_strength=q)
    t0 = p["t0"]
    driven = kind in ("square_source", "gaussian_source", "boundary")
    cuts = [0.0, t0, T] if driven else [0.0, 0.15 * T, T]
    z, w = Lg.leggauss(8)
    tt, tw = [], []
    for a, b in zip(cuts[:-1], cuts[1:]):
        for c, e in zip(np.linspace(a, b, 3)[:-1], np.linspace(a, b, 3)[1:]):
            tt += list(0.5 * (e - c) * z + 0.5 * (c + e))
            tw += list(0.5 * (e - c) * w)
    r = lab.solve(p, rt=1e-8, at=1e-10, mxstp=0.02 * T, eval_array=tt + [T])
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    ex = np.array(r["exit_dist"])[:-1]
    gone = np.zeros(len(tt))
    for i, t in enumerate(tt):
        for l, mu in enumerate(mus):
            if mu > 0:
                gone[i] += ws[l] * mu * ex[i, l, 1]
            else:
                gone[i] -= ws[l] * mu * ex[i, l, 0]
            if kind == "boundary" and t <= t0:
                side = 0 if mu > 0 else 1
                gone[i] -= ws[l] * abs(mu) * q * d["sides"][side]
    tt, tw = np.array(tt), np.array(tw)
    k = p["sigma_t"] - p["sigma_s"]
    init, src = (None, None) if kind == "boundary" else \
        data(p, kind, p["x0"])
    want = -np.sum(tw * gone * np.exp(-k * (T - tt)))
    size = np.sum(tw * np.abs(gone)) + 1e-12
    if init is not None:
        want += init[0] * np.exp(-k * T)
        size += init[0]
    if src is not None:
        on = tt <= t0
        want += np.sum(tw[on] * src[0] * np.exp(-k * (T - tt[on])))
        size += src[0] * t0
    got = ws @ computed(p, np.array(r["sol"]), np.array(r["edges"]), 1)[:, 0]
    close(got, want, "particles left on the mesh", 0, d["tol"] * size)
    return d["c"] > 0


def ball(d):
    """Sphere: particles and their mean square distance from the centre, up
    to the error of the angular differences (second order in the angles)."""
    p11.scratch()
    T, c, x0 = d["tf"], d["c"], d["x0"]
    k = 1 - c
    # N' = -kN, m' = N - m, R' = 2m - kR with the ball as initial data
    A = np.array([[-k, 0, 0], [1, -1, 0], [0, 2, -k]], float)
    want = expm(A * T) @ np.array([1.0, 0.0, 0.6 * x0 * x0])
    err = []
    for n in (6, 12):
        p = lab.full(dict(geom="sphere", source=meshes.SRC["shell"],
                          N_space=d["n"], M=d["M"], N_ang=n, x0=x0, tfinal=T,
                          moving=bool(d["moving"]), sigma_t=1.0, sigma_s=c,
                          uncollided=bool(d["unc"]), weights=d["w"],
                          source_strength=1.0))
        r = lab.solve(p, rt=1e-5, at=1e-7, mxstp=0.1 * T)
        e, u = np.array(r["edges"]), np.array(r["sol"])
        ws = lab.angles(n, p["weights"])[1]
        z, w = Lg.leggauss(24)
        got = np.zeros(2)
        U = lab.make_unc(lab.make_build(p))
        f, _ = ref.basis("sphere")
        for cell, (a, b) in enumerate(zip(e[:-1], e[1:])):
            y, ww = 0.5 * (b - a) * z + 0.5 * (a + b), 0.5 * (b - a) * w
            B = np.array([f(i, y, a, b) for i in range(p["M"] + 1)])
            phi = ws @ (u[:, cell] @ B)
            if d["unc"]:
                phi = phi + np.array(U.uncollided_solution(y, T))
            got += [4 * np.pi * np.sum(ww * y ** j * phi) for j in (2, 4)]
        err.append(np.abs(got - want[[0, 2]]) / want[[0, 2]])
    for i, name in enumerate(("particles", "mean square distance")):
        far = (T / x0) ** 2
        tol = 0.015 + 0.035 * far if d["unc"] else 0.05 + 0.2 * far
        if err[0][i] > tol or err[1][i] > max(0.55 * err[0][i], 0.02):
            fail(f"{name}: relative error {err[0][i]:.3g} with 6 angles, "
                 f"{err[1][i]:.3g} with 12")
    return c > 0


def strat(kinds, tol, M):
    return case(
        kind=pick(*kinds), n=pick(4, 6, 8), x0=num(0.3, 2, 0.1),
        tf=num(0.5, 3, 0.1), sides=pick([1, 0], [0, 1], [1, 1]), ev=st.just(1.0),
        mf=st.just(1.0), frac=st.just(0.0), t0f=num(0.2, 0.9, 0.05),
        waves=st.just([0.1, 0.1]), M=M, ang=pick(2, 4, 6),
        w=pick("gauss_lobatto", "gauss_legendre"), c=num(0, 1.2, 0.05),
        st=num(0.5, 2, 0.1), q=num(0.5, 2, 0.1), tol=st.just(tol))


CHECKS = [
    Check("exact", strat(EXACT, 1e-5, pick(0, 1, 2, 3)), balance, quick=60,
          thorough=2000, jit=24),
    Check("smooth", strat(SMOOTH, 1e-2, pick(2, 3)), balance, quick=60,
          thorough=1000, jit=12),
    Check("static", strat(EXACT + ["boundary"], 5e-4, pick(0, 1, 2)), leak,
          quick=60, thorough=1000, jit=12),
    Check("static_smooth", strat(SMOOTH, 1e-2, pick(2, 3)), leak,
          quick=40, thorough=600, jit=8),
    Check("sphere",
          case(n=pick(4, 5), M=st.just(2), x0=num(0.5, 1.5, 0.1),
               tf=num(0.3, 1, 0.1), c=num(0, 1, 0.05), moving=ints(0, 1),
               unc=ints(0, 1), w=pick("gauss_lobatto", "gauss_legendre")),
          ball, quick=40, thorough=400, jit=16),
]
