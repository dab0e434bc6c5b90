"""Slab: the right-hand side is the transport equation on the moving mesh."""
import math

import numpy as np
from numpy.polynomial import legendre as Lg

from .. import gen, lab, meshes, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st
from . import p08, p17

RULE = "a moving mesh of four or more cells, M >= 1, non-zero flux"
ASSUMPTIONS = [
    "The material-energy equation is not part of the right-hand side in use.",
    "With the uncollided flux split off the total cross section is one.",
    "At most 2M + 1 modes of the opacity above the mean: what the default "
    "quadrature of 2M + 1 points integrates.",
    "Meshes as in P04; cells cut by the travelling shock are not compared.",
]
SLAB = [k for k, v in meshes.KINDS.items() if v[1] == "slab"]
SPLIT = {"plane", "square", "gaussian", "square_source", "gaussian_source",
         "square_source_finite", "thick_plane", "thick_gaussian",
         "thick_square", "thick_gaussian_source", "thick_square_source",
         "boundary"}
# a flux next to a numerically empty cell carries the rounding of its width
TINY = {"thick_sqrt"}


def par(d):
    p = meshes.params(d)
    split = bool(d["unc"]) and d["kind"] in SPLIT
    st_ = 1.0 if split else d["st"]
    name = "constant" if split or d["kind"] == "mms" else d["opacity"]
    if split and d["kind"] == "boundary":   # the only opacity it is known for
        name = "fake_sedov"
    p.update(M=d["M"], N_ang=d["ang"], weights=d["w"], uncollided=split,
             sigma_t=st_, sigma_s=st_ * d["c"], sigma_func=name,
             Msigma=0 if name == "constant" else min(d["Ms"], 2 * d["M"] + 1),
             source_strength=d["q"], xs_order=None, t_nodes=20,
             boundary_source_strength=d["q"])
    if name == "fake_sedov" and d["kind"] != "boundary":
        p["fake_sedov_v0"] = 0.05 * d["frac"]
    return p


def fresh_mesh(p, t):
    m = lab.make_mesh(p)
    m.move(float(t))
    return m, np.array(m.edges, float), np.array(m.Dedges, float)


def sources(p, t, edges):
    """0.5 * source term of every cell (and direction), from new objects."""
    b = lab.make_build(p)
    s, unc = lab.make_source(b), lab.make_unc(b)
    mus = lab.angles(p["N_ang"], p["weights"])[0]
    out = np.zeros((p["N_ang"], p["N_space"], p["M"] + 1))
    for k in range(p["N_space"]):
        a, c = float(edges[k]), float(edges[k + 1])
        if p["source"][4] == 1:
            for l in range(p["N_ang"]):
                s.make_source_not_isotropic(float(t), float(mus[l]), a, c)
                out[l, k] = 0.5 * np.array(s.S)
        else:
            s.make_source(float(t), a, c, unc)
            out[:, k] = 0.5 * np.array(s.S)
    return out


def outside(p, t, edges):
    """Incoming flux at the two ends, for every direction."""
    if p["source"][4] == 1:
        K = p["M"] + 1

        def ghost(a, b, x):
            z, w = Lg.leggauss(2 * p["M"] + 1)      # the solver's own rule
            y, w = 0.5 * (b - a) * z + 0.5 * (a + b), 0.5 * (b - a) * w
            c = [np.sum(w * np.exp(-y * y / 2) / 2 / (1 + t)
                        * ref.leg(i, y, a, b)) for i in range(K)]
            return sum(ci * float(ref.leg(i, x, a, b))
                       for i, ci in enumerate(c))
        h0, h1 = edges[1] - edges[0], edges[-1] - edges[-2]
        return (ghost(edges[0] - h0, edges[0], edges[0]),
                ghost(edges[-1], edges[-1] + h1, edges[-1]))
    if p.get("boundary_source") and t <= p["t0"] and not p["uncollided"]:
        q = p["boundary_source_strength"]
        return q * p["boundary_on"][0], q * p["boundary_on"][1]
    return 0.0, 0.0


def opacity(p, edges, t):
    """Legendre moments of the opacity by the solver's own rule."""
    v = p.get("fake_sedov_v0", 0.0)
    z, w = Lg.leggauss(2 * p["M"] + 1)
    out, ok = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        y, ww = 0.5 * (b - a) * z + 0.5 * (a + b), 0.5 * (b - a) * w
        f = p17.sigma(p["sigma_func"], v, y, t)
        out.append([np.sum(ww * f * ref.leg(j, y, a, b))
                    for j in range(p["Msigma"] + 1)])
        ok.append(not (p["sigma_func"] == "fake_sedov"
                       and np.min(np.abs(y + v * t)) < 1e-9))
    return np.array(out), np.array(ok)


def reference(p, t, V):
    mesh, e, v = fresh_mesh(p, t)
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    ws = np.array(ws) / np.sum(ws)
    N, K = p["N_space"], p["M"] + 1
    S = sources(p, t, e)
    left, right = outside(p, t, e)
    cs, ok = opacity(p, e, t)
    out = np.zeros_like(V)
    P = np.einsum("l,lki->ki", ws, V)
    z, w0 = Lg.leggauss(2 * K + p["Msigma"] + 2)
    for k in range(N):
        a, b = e[k], e[k + 1]
        L, G = ref.slab_mats(K, a, b, v[k], v[k + 1])
        y, w = 0.5 * (b - a) * z + 0.5 * (a + b), 0.5 * (b - a) * w0
        B = np.array([ref.leg(i, y, a, b) for i in range(K)])
        if p["sigma_func"] == "constant":
            sig = np.ones_like(y)
        else:
            sig = sum(c * ref.leg(j, y, a, b) for j, c in enumerate(cs[k]))
        A = (B * w * sig) @ B.T                 # opacity in the cell's modes
        for l, mu in enumerate(mus):
            flux, _, _ = p08.reference("slab", e, v, V[l], mu, k, left, right)
            out[l, k] = ((G + mu * L) @ V[l, k] - flux
                         - p["sigma_t"] * A @ V[l, k]
                         + p["sigma_s"] * A @ P[k]
                         + (A if p["uncollided"] else np.eye(K)) @ S[l, k])
    return out, ok, e, v


def field(d, p):
    u = gen.coeffs(d["u"], (p["N_ang"], p["N_space"], p["M"] + 1))
    return np.ascontiguousarray(u)


def equation(d):
    """At every time of an out-of-order history, on any mesh."""
    p = lab.full(par(d))
    rhs = lab.Rhs(p)
    V = field(d, p)
    for f in d["times"]:
        t = 0.002 * d["tf"] + 0.998 * f * d["tf"]
        if abs(t - p["t0"]) < 1e-9:
            continue
        before = V.copy()
        got = rhs(t, V)
        if np.any(V != before):
            fail("the right-hand side changed the solution it was given")
        want, ok, e, v = reference(p, t, V)
        # cell by cell: a narrow cell has large rates of its own
        for k in range(p["N_space"]):
            if not ok[k]:
                continue
            nb = V[:, max(0, k - 1):k + 2]
            w = e[k + 1] - e[k]
            wid = np.diff(e)[max(0, k - 1):k + 2]
            scale = (1 + np.max(np.abs(v))) * np.max(np.abs(nb)) \
                * (1 + p["M"]) ** 2 / math.sqrt(w * np.min(wid)) \
                + np.max(np.abs(want[:, k])) + 1e-30
            close(got[:, k] / scale, want[:, k] / scale,
                  f"{d['kind']}: rate of change in cell {k} at t={t}",
                  2e-8 if d["kind"] not in TINY else 1e-4, 1e-9
                  if d["kind"] not in TINY else 1e-4)
    return bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


def balance(d):
    """Particles: the rate of change is source minus absorption plus what
    crosses the two ends, relative to the moving ends."""
    p = lab.full(par(dict(d, opacity="constant",
                          unc=d["unc"] and d["kind"] != "boundary")))
    rhs = lab.Rhs(p)
    V = field(d, p)
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    ws = np.array(ws) / np.sum(ws)
    t = 0.002 * d["tf"] + 0.998 * d["times"][0] * d["tf"]
    if abs(t - p["t0"]) < 1e-9:
        return False
    got = rhs(t, V)
    _, e, v = fresh_mesh(p, t)
    h = np.diff(e)
    n = np.einsum("l,lk->k", ws, V[:, :, 0]) * np.sqrt(h)
    dn = np.einsum("l,lk->k", ws, got[:, :, 0]) * np.sqrt(h) \
        + np.einsum("l,lk->k", ws, V[:, :, 0]) * np.diff(v) / 2 / np.sqrt(h)
    S = np.einsum("l,lk->k", ws, sources(p, t, e)[:, :, 0]) * np.sqrt(h)
    left, right = outside(p, t, e)
    net = 0.0
    K = p["M"] + 1
    for l, mu in enumerate(mus):
        sl, sr = mu - v[0], mu - v[-1]
        pl = left if sl >= 0 else p08.trace("slab", V[l, 0], e[0], e[1], e[0])
        pr = right if sr < 0 else p08.trace("slab", V[l, -1], e[-2], e[-1],
                                            e[-1])
        net += ws[l] * (sl * pl - sr * pr)
    want = np.sum(S) - (p["sigma_t"] - p["sigma_s"]) * np.sum(n) + net
    scale = np.sum(np.abs(dn)) + abs(want) + np.max(np.abs(V)) \
        * (1 + np.max(np.abs(v))) * (1 + p["M"]) / math.sqrt(np.min(h))
    if abs(np.sum(dn) - want) > 1e-8 * scale:
        fail(f"{d['kind']}: particles change at {np.sum(dn)}, balance {want}")
    return bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


MIRROR = [k for k in SLAB if k not in ("boundary", "dipole")]


def mirror(d):
    """A mirrored solution has the mirrored rate of change."""
    p = lab.full(par(dict(d, opacity=pick_even(d["opacity"]))))
    V = field(d, p)
    t = 0.002 * d["tf"] + 0.998 * d["times"][0] * d["tf"]
    sign = (-1.0) ** np.arange(p["M"] + 1)
    flip = lambda U: np.ascontiguousarray(U[::-1, ::-1, :] * sign)
    a = lab.Rhs(p)(t, V)
    b = lab.Rhs(p)(t, flip(V))
    _, e, v = fresh_mesh(p, t)
    scale = np.max(np.abs(a)) + np.max(np.abs(V)) * (1 + np.max(np.abs(v))) \
        * (1 + p["M"]) ** 2 / np.min(np.diff(e))
    close(b / scale, flip(a) / scale, f"{d['kind']}: mirror image at t={t}",
          1e-9, 1e-9)
    return bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


def pick_even(name):
    return name if name in ("constant", "gaussian") else "gaussian"


def linear(d):
    """Superposition: the equation is affine, and scaling the sources and the
    solution together scales the rate of change."""
    p = lab.full(par(d))
    t = 0.002 * d["tf"] + 0.998 * d["times"][0] * d["tf"]
    if p["source"][4] == 1:
        return False
    rhs = lab.Rhs(p)
    V = field(d, p)
    W = field(dict(d, u=dict(d["u"], seed=d["u"]["seed"] + 1)), p)
    z = rhs(t, 0 * V)
    a, b = rhs(t, V) - z, rhs(t, W) - z
    c = rhs(t, 2 * V - 3 * W) - z
    s = np.max(np.abs(a)) + np.max(np.abs(b)) + np.max(np.abs(z)) + 1e-30
    close(c / s, (2 * a - 3 * b) / s, "superposition", 1e-9, 1e-10)
    k = 2.5
    q = lab.Rhs(dict(p, source_strength=k * p["source_strength"],
                     boundary_source_strength=k * p[
                         "boundary_source_strength"]))
    close(q(t, k * V) / s, k * (a + z) / s, "scaling", 1e-9, 1e-10)
    return bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


times = st.lists(num(0, 1, 0.01), min_size=1, max_size=4)
extra = dict(M=rarely(ints(0, 4), 7, 9),
             ang=rarely(pick(2, 4, 6), 16), u=gen.coeff_spec(),
             w=pick("gauss_legendre", "gauss_lobatto"), unc=ints(0, 1),
             st=rarely(num(0.2, 3, 0.1), 10.0, 50.0), c=pick(1.0, 0.9, 0.5, 0.0, 1.5),
             q=rarely(num(0.1, 4, 0.1), 40.0, 1e3), Ms=ints(0, 3),
             opacity=pick("constant", "constant", "gaussian", "siewert1",
                          "fake_sedov"),
             n=rarely(ints(2, 10), 24, 36), times=times)
CHECKS = [
    Check("equation", meshes.strategy(kinds=SLAB, **extra), equation,
          quick=480, jit=24),
    Check("balance", meshes.strategy(kinds=SLAB, **extra), balance,
          quick=480, jit=24),
    Check("mirror", meshes.strategy(kinds=MIRROR, **extra), mirror, quick=240,
          jit=16),
    Check("linear", meshes.strategy(kinds=SLAB, **extra), linear, quick=160,
          jit=16),
]
