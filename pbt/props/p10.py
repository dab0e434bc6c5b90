"""Sphere: the right-hand side is the spherical transport equation."""
import math

import numpy as np

from .. import gen, lab, meshes, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st
from . import p08, p09, p24  # noqa: F401

RULE = "a moving mesh of four or more cells, M >= 1, non-zero flux"
ASSUMPTIONS = [
    "The matrix tables come from the definitions (they are not in the "
    "repository); M at most 6.",
    "In the sphere the total cross section is one and the opacity constant.",
    "An even number of directions, symmetric about zero.",
]


def par(d):
    p = meshes.params(d)
    p.update(M=d["M"], N_ang=d["ang"], weights=d["w"],
             uncollided=bool(d["unc"]), sigma_t=1.0, sigma_s=d["c"],
             source_strength=d["q"], t_nodes=20)
    return lab.full(p)


def angular(mus, psi):
    """(d/dmu)(1 - mu^2) psi by faces halfway between the directions."""
    mid = 0.5 * (mus[1:] + mus[:-1])
    face = np.concatenate([[0.0], (1 - mid ** 2) * 0.5 * (psi[1:] + psi[:-1]),
                           [0.0]])
    w = np.diff(np.concatenate([[-1.0], mid, [1.0]]))
    return np.diff(face) / w


def sources(p, t, edges):
    b = lab.make_build(p)
    s, unc = lab.make_source(b), lab.make_unc(b)
    out = np.zeros((p["N_space"], p["M"] + 1))
    for k in range(p["N_space"]):
        s.make_source(float(t), float(edges[k]), float(edges[k + 1]), unc)
        out[k] = np.array(s.S)
    return out


def reference(p, t, V):
    _, e, v = p09.fresh_mesh(p, t)
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    mus = np.array(mus)
    ws = np.array(ws) / np.sum(ws)
    N, K = p["N_space"], p["M"] + 1
    S = sources(p, t, e)
    P = np.einsum("l,lki->ki", ws, V)
    out = np.zeros_like(V)
    cond = np.zeros(N)
    for k in range(N):
        a, b = e[k], e[k + 1]
        Mass, J, L, G, MP = ref.sphere_mats(K, a, b, v[k], v[k + 1])
        cond[k] = np.linalg.cond(Mass)
        A = np.array([angular(mus, V[:, k, j]) for j in range(K)])
        for l, mu in enumerate(mus):
            left = 0.0
            if k == 0:
                # the centre reflects what arrives from the other side
                left = p08.trace("sphere", V[p["N_ang"] - 1 - l, 0], e[0],
                                 e[1], e[0])
            flux, _, _ = p08.reference("sphere", e, v, V[l], mu, k, left, 0.0)
            r = (mu * L + G - MP) @ V[l, k] - flux - J @ A[:, l] \
                + 0.5 * p["sigma_s"] * S[k]
            out[l, k] = np.linalg.solve(Mass, r) + p["sigma_s"] * P[k] \
                - V[l, k]
    return out, e, v, cond


def when(d, f, p):
    return 0.002 * d["tf"] + 0.998 * f * d["tf"]


def equation(d):
    """At every time of an out-of-order history."""
    p = par(d)
    rhs = lab.Rhs(p)
    V = p09.field(d, p)
    hit = False
    for f in d["times"]:
        t = when(d, f, p)
        before = V.copy()
        got = rhs(t, V)
        if np.any(V != before):
            fail("the right-hand side changed the solution it was given")
        want, e, v, cond = reference(p, t, V)
        for k in range(p["N_space"]):
            w = e[k + 1] - e[k]
            if w < 0.02 * e[k + 1]:
                continue            # the closed forms divide by the width
            nb = np.max(np.abs(V[:, max(0, k - 1):k + 2]))
            wid = np.min(np.diff(e)[max(0, k - 1):k + 2])
            # the mass matrix is inverted: at the centre and for high
            # orders its small eigenvalues amplify rounding
            scale = (1 + np.max(np.abs(v))) * nb * (1 + p["M"]) ** 2 \
                / math.sqrt(w * wid) * max(1.0, cond[k] * 1e-4) \
                + np.max(np.abs(want[:, k])) + 1e-30
            close(got[:, k] / scale, want[:, k] / scale,
                  f"{d['kind']}: rate of change in cell {k} at t={t}", 1e-7,
                  1e-8)
            hit = True
    return hit and bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


def linear(d):
    p = par(d)
    t = when(d, d["times"][0], p)
    rhs = lab.Rhs(p)
    V = p09.field(d, p)
    W = p09.field(dict(d, u=dict(d["u"], seed=d["u"]["seed"] + 1)), p)
    z = rhs(t, 0 * V)
    a, b = rhs(t, V) - z, rhs(t, W) - z
    c = rhs(t, 2 * V - 3 * W) - z
    s = np.max(np.abs(a)) + np.max(np.abs(b)) + np.max(np.abs(z)) + 1e-30
    close(c / s, (2 * a - 3 * b) / s, "superposition", 1e-8, 1e-9)
    return bool(p["moving"]) and p["N_space"] >= 4 and p["M"] >= 1


def local(d):
    """A cell is driven by itself and its neighbours only, and at the centre
    by the mirrored direction."""
    p = par(dict(d, c=0.0, unc=0))
    t = when(d, d["times"][0], p)
    N, A = p["N_space"], p["N_ang"]
    k0, l0 = d["u"]["seed"] % N, d["u"]["seed"] // 7 % A
    V = np.zeros((A, N, p["M"] + 1))
    V[l0, k0] = gen.rng(d["u"]["seed"]).normal(size=p["M"] + 1)
    got = lab.Rhs(p)(t, V)
    s = np.max(np.abs(got)) + 1e-30
    for l in range(A):
        for k in range(N):
            near = (l == l0 and abs(k - k0) <= 1) \
                or (k == k0 and abs(l - l0) <= 1) \
                or (k == k0 == 0 and l == A - 1 - l0)
            if not near and np.max(np.abs(got[l, k])) > 1e-12 * s:
                fail(f"cell {k0} direction {l0} drives cell {k} direction {l}")
    return bool(p["moving"]) and N >= 4 and p["M"] >= 1


times = st.lists(num(0, 1, 0.01), min_size=1, max_size=4)
extra = dict(M=ints(0, 6), ang=rarely(pick(2, 4, 6, 8), 16, 32), u=gen.coeff_spec(),
             w=pick("gauss_legendre", "gauss_lobatto"), unc=ints(0, 1),
             c=pick(1.0, 0.9, 0.5, 0.0), q=rarely(num(0.1, 4, 0.1), 40.0),
             n=rarely(ints(2, 10), 24, 36),
             times=times)
K = ["point", "shell"]
CHECKS = [
    Check("equation", meshes.strategy(kinds=K, **extra), equation, quick=480,
          jit=24),
    Check("linear", meshes.strategy(kinds=K, **extra), linear, quick=160,
          jit=16),
    Check("local", meshes.strategy(kinds=K, **extra), local, quick=200,
          jit=16),
]
