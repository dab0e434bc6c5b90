"""Symmetries of a run: mirror, strength and units."""
import numpy as np

from .. import lab, meshes
from ..core import Check
from ..gen import case, close, ints, num, pick, st
from . import p09, p11

QUICK_BUDGET = 60
RULE = "scattering, M >= 1, four or more cells and a non-zero result"
ASSUMPTIONS = [
    "Units: the uncollided flux is not split off (its formulas take the mean "
    "free path as the unit of length); opacity constant.",
    "Two runs agree up to the time integrator's tolerance.",
]
KINDS = [k for k in p11.SLAB if k not in ("boundary", "mms")]
MIRROR = [k for k in KINDS if k != "noniso"]
TIGHT = dict(rt=1e-8, at=1e-10)
# a run whose particles have all left its mesh shows only its tolerance
FLOOR = 1e-3


def par(d):
    q = dict(d)
    if d["opacity"] != "gaussian":
        q["opacity"] = "constant"
    if d["kind"] == "boundary":         # as in P11
        q["unc"] = 0
    p = lab.full(p09.par(q))
    if d["kind"].startswith("gaussian"):
        p.update(x0=3 * d["x0"], sigma=d["x0"])
    return p


def points(p, d):
    L = p["x0"] + p["tfinal"]
    return np.array([(2 * v - 1) * L for v in d["pts"]])


def off(r, xs):
    e = np.array(r["edges"])
    return np.array([np.min(np.abs(e - x)) > 1e-6 * (e[-1] - e[0])
                     for x in xs])


def size(r):
    """The largest flux anywhere in the cells."""
    u, e = np.array(r["sol"]), np.array(r["edges"])
    i = np.sqrt(2 * np.arange(u.shape[2]) + 1)
    return np.max(np.abs(u) * i / np.sqrt(np.diff(e))[None, :, None]) + 1e-30


def good(p, r):
    return p["sigma_s"] > 0 and p["M"] >= 1 and p["N_space"] >= 4 \
        and np.max(np.abs(np.array(r["phi"]))) > 0


def mirror(d):
    p11.scratch()
    p = par(d)
    xs = points(p, d)
    a = lab.solve(p, xs=np.concatenate([xs, -xs]), mxstp=0.05 * p["tfinal"],
                  **TIGHT)
    n = xs.size
    phi, psi = np.array(a["phi"]), np.array(a["psi"])
    ok = off(a, xs) & off(a, -xs)
    s = size(a) + FLOOR
    close(phi[:n][ok], phi[n:][ok], "scalar flux at x and -x", 0, 1e-5 * s)
    close(psi[:, :n][:, ok], psi[::-1, n:][:, ok],
          "angular flux at (x, mu) and (-x, -mu)", 0, 1e-5 * s)
    ex = np.array(a["exit_dist"])
    close(ex[:, 0], ex[::-1, 1], "exit angular flux of the two ends", 0,
          1e-5 * s)
    ep = np.array(a["exit_phi"])
    close(ep[0], ep[1], "exit scalar flux of the two ends", 0, 1e-5 * s)
    return good(p, a)


def strength(d):
    p11.scratch()
    if meshes.KINDS[d["kind"]][1] == "sphere":
        p = p11.par(d)
    else:
        p = par(d)
    p["boundary_source_strength"] = d["q"]
    k = d["k"]
    xs = points(p, d)
    if p["geom"] == "sphere":
        xs = np.abs(xs)
    a = lab.solve(p, xs=xs, mxstp=0.05 * p["tfinal"], **TIGHT)
    b = lab.solve(dict(p, source_strength=k * p["source_strength"],
                       boundary_source_strength=k * d["q"]), xs=xs,
                  mxstp=0.05 * p["tfinal"], rt=1e-8, at=1e-10 * k)
    s = k * (size(a) + FLOOR)
    for f in ("phi", "psi", "exit_dist", "exit_phi", "sol"):
        A, B = np.array(a[f]), np.array(b[f])
        w = s if f != "sol" else k * (np.max(np.abs(A)) + FLOOR)
        close(B, k * A, f"{f} of a {k:g} times stronger problem", 0,
              1e-5 * w + 1e-9 * k * np.max(np.abs(A)))
    return good(p, a)


# the square pulses keep a margin of fixed width around the mesh
LENGTH = {"plane": -1, "gaussian": 0, "gaussian_source": 1,
          "thick_gaussian": 0, "thick_gaussian_source": 1}


def units(d):
    """The same problem with lengths and times in other units."""
    p11.scratch()
    p = par(dict(d, unc=0, opacity="constant"))
    k = d["k"]
    xs = points(p, d)
    q = dict(p, x0=k * p["x0"], tfinal=k * p["tfinal"], t0=k * p["t0"],
             sigma=k * p["sigma"], sigma_t=p["sigma_t"] / k,
             sigma_s=p["sigma_s"] / k)
    a = lab.solve(p, xs=xs, mxstp=0.05 * p["tfinal"], **TIGHT)
    f = k ** LENGTH[d["kind"]]
    b = lab.solve(q, xs=k * xs, mxstp=0.05 * q["tfinal"], rt=1e-8,
                  at=1e-10 * f)
    close(np.array(b["edges"]), k * np.array(a["edges"]), "edges", 1e-9)
    s = (size(a) + FLOOR) * f
    ok = off(a, xs)
    close(np.array(b["phi"])[ok], f * np.array(a["phi"])[ok],
          f"scalar flux with lengths times {k:g}", 0, 1e-5 * s)
    close(np.array(b["psi"])[:, ok], f * np.array(a["psi"])[:, ok],
          f"angular flux with lengths times {k:g}", 0, 1e-5 * s)
    return good(p, a)


def strat(kinds):
    return case(
        kind=pick(*kinds), n=pick(4, 6), x0=num(0.2, 2, 0.1),
        tf=num(0.2, 2, 0.1), moving=ints(0, 1), ev=pick(1.0, 1.0, 0.7),
        mf=num(0.5, 2, 0.1), frac=num(0, 1, 0.05), t0f=num(0.2, 0.9, 0.05),
        waves=st.just([0.1, 0.1]), M=pick(1, 2, 1, 0), ang=pick(2, 4),
        w=pick("gauss_lobatto", "gauss_legendre"), c=num(0.1, 1, 0.05),
        st=num(0.5, 2, 0.1), q=num(0.5, 2, 0.1), unc=ints(0, 1),
        opacity=pick("constant", "gaussian", "siewert2"), Ms=ints(0, 3),
        k=pick(2.0, 3.0, 0.5, 5.0, 0.3),
        pts=st.lists(num(0.02, 0.98, 0.01), min_size=2, max_size=6))


CHECKS = [
    Check("mirror", strat(MIRROR), mirror, quick=80, thorough=1500, jit=16),
    Check("strength", strat(KINDS + ["boundary"] + p11.BALL), strength,
          quick=80, thorough=1500, jit=16),
    Check("units", strat(sorted(LENGTH)), units, quick=80, thorough=1500,
          jit=16),
]
