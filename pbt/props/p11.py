"""A run: solve() returns the solution of its own semi-discrete system."""
import os
import shutil
import tempfile

import numpy as np
from scipy import integrate

from .. import gen, lab, meshes, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st
from . import p03, p09

RULE = "a non-zero solution on four or more cells with M >= 1"
ASSUMPTIONS = [
    "The right-hand side, the meshes, the initial condition and the "
    "expansion are those judged by P03 to P18; here they are put together.",
    "Meshes whose position depends on the order of the calls (finite domain; "
    "see the known findings) are not run.",
    "The time integrator of scipy is trusted to follow its tolerance; the "
    "reference uses another method and a tolerance 1000 times tighter.",
]
FINITE = {k for k, v in meshes.KINDS.items() if v[3].get("finite_domain")}
SLAB = [k for k in p09.SLAB if k not in FINITE | {"thick_square_track", "dipole"}]
BALL = ["point", "shell"]
_scratch = []


def scratch():
    """A folder of its own to run in: solve() reads and writes below '.'"""
    if not _scratch:
        import atexit
        d = tempfile.mkdtemp(prefix="pbt_run_")
        home = os.getcwd()

        def done():
            os.chdir(home)
            shutil.rmtree(d, ignore_errors=True)
        atexit.register(done)
        os.chdir(d)
        _scratch.append(d)
    return _scratch[0]


def par(d):
    if meshes.KINDS[d["kind"]][1] == "slab":
        # the split shock problem has a source with a jump at every node
        # of every cell, which no integrator follows to its tolerance
        p = p09.par(dict(d, unc=d["unc"] and d["kind"] != "boundary"))
    else:
        p = meshes.params(d)
        p.update(M=d["M"], N_ang=d["ang"], weights=d["w"], sigma_t=1.0,
                 sigma_s=d["c"], source_strength=d["q"], t_nodes=20,
                 uncollided=bool(d["unc"]))
    return lab.full(p)


def reference(p, times, rt):
    """States at the times, by another integrator."""
    f = lab.Rhs(p)
    b = lab.make_build(p)
    b.make_IC()
    y0 = np.array(b.IC, float).reshape(-1)
    s = integrate.solve_ivp(lambda t, V: f(t, V).reshape(-1),
                            [0.0, times[-1]], y0, method="RK45",
                            t_eval=times, rtol=rt, atol=rt * 1e-2,
                            max_step=0.05 * times[-1])
    if s.status != 0 or s.y.shape[1] != len(times):
        return None
    return s.y.T.reshape((len(times),) + f.shape)


def nodes(p, e):
    n = max(p["M"], 1)
    if p["geom"] == "slab":
        z = np.polynomial.legendre.leggauss(n)[0]
    else:
        k = np.arange(n)
        z = -np.cos((2 * k + 1) * np.pi / 2 / n)
    return np.concatenate([0.5 * (b - a) * z + 0.5 * (a + b)
                           for a, b in zip(e[:-1], e[1:])])


def away(xs, edges, h):
    """Points off the cell edges (the solution jumps there)."""
    return np.array([np.min(np.abs(edges - x)) > h for x in xs])


def unc_flux(p, xs, t):
    if not p["uncollided"]:
        return np.zeros(len(xs))
    u = lab.make_unc(lab.make_build(p))
    return np.array(u.uncollided_solution(np.asarray(xs, float), float(t)))


def compare(p, t, u, got, xs, tol, what):
    """One time: reported fields against the expansion of the state u."""
    _, e, _ = p09.fresh_mesh(p, t)
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    ok = away(xs, e, 1e-9 * (e[-1] - e[0]))
    psi = np.array([p03.expand(p["geom"], u, e, x) for x in xs]).T
    phi = ws @ psi + unc_flux(p, xs, t)
    grid = np.linspace(e[0], e[-1], 4 * p["N_space"] + 3)
    scale = max(np.max(np.abs(p03.expand(p["geom"], u, e, x))) for x in grid)
    close(np.array(got["psi"])[:, ok], psi[:, ok], what + ": angular flux", 0,
          tol * scale)
    close(np.array(got["phi"])[ok], phi[ok], what + ": scalar flux", 0,
          2 * tol * scale + 1e-9 * np.max(np.abs(phi)))
    ends = np.array([p03.expand(p["geom"], u, e, x)
                     for x in (e[0], e[-1])]).T
    close(got["exit_dist"], ends, what + ": exit angular flux", 0, tol * scale)
    w = ws @ ends + unc_flux(p, [e[0], e[-1]], t)
    close(got["exit_phi"], w, what + ": exit scalar flux", 0,
          2 * tol * scale + 1e-9 * max(np.max(np.abs(w)), np.max(np.abs(phi))))
    return e, psi


def points(p, e, pts):
    lo, hi = e[0], e[-1]
    return np.array(sorted(lo + (1.1 * v - 0.05) * (hi - lo) for v in pts))


def run(d):
    scratch()
    p = par(d)
    rt = 10.0 ** -d["rt"]
    T = p["tfinal"]
    times = [T]
    if d["evals"]:
        times = sorted({round(f * T, 9) for f in d["evals"]})
    u = reference(p, times, rt * 1e-3)
    if u is None:
        return False
    _, e, _ = p09.fresh_mesh(p, T)
    xs = points(p, e, d["pts"]) if d["pts"] else None
    r = lab.solve(p, rt=rt, at=rt * 1e-2, integrator=d["method"],
                  mxstp=0.05 * T, xs=xs,
                  eval_array=times if d["evals"] else None)
    tol = 1e3 * rt
    mus, ws = lab.angles(p["N_ang"], p["weights"])
    close(r["mus"], mus, "directions", 1e-10)
    close(r["ws"], ws, "weights", 1e-9)
    scale = np.max(np.abs(u))
    close(np.array(r["sol"]), u[-1], "coefficients of the last time", 0,
          tol * scale)
    if d["evals"]:
        if np.shape(r["phi"])[0] != len(times):
            fail("one result per evaluation time expected")
        got = [{k: np.array(r[k])[i] for k in
                ("psi", "phi", "exit_dist", "exit_phi", "xs")}
               for i in range(len(times))]
    else:
        got = [{k: np.array(r[k]) for k in
                ("psi", "phi", "exit_dist", "exit_phi", "xs")}]
    for i, t in enumerate(times):
        _, e, _ = p09.fresh_mesh(p, t)
        want = xs if xs is not None else nodes(p, e)
        close(got[i]["xs"], want, f"t={t:g}: output points", 0,
              1e-9 * (e[-1] - e[0]))
        e, psi = compare(p, t, u[i], got[i], want, tol, f"t={t:g}")
    close(r["edges"], e, "edges of the last time", 0, 1e-9 * (e[-1] - e[0]))
    return bool(np.any(u != 0)) and p["N_space"] >= 4 and p["M"] >= 1


def strat(kinds):
    return case(
        kind=pick(*kinds), n=pick(4, 6), x0=num(0.2, 3, 0.1),
        tf=num(0.2, 2, 0.1), moving=ints(0, 1), ev=pick(1.0, 1.0, 0.7),
        mf=num(0.5, 2, 0.1), frac=num(0, 1, 0.05), t0f=num(0.2, 0.9, 0.05),
        waves=st.just([0.1, 0.1]), M=pick(1, 2, 1, 0), ang=pick(2, 4),
        w=pick("gauss_lobatto", "gauss_legendre"), c=num(0.1, 1, 0.05),
        st=num(0.5, 2, 0.1), q=num(0.5, 2, 0.1), unc=ints(0, 1),
        opacity=pick("constant", "gaussian", "siewert1", "siewert2",
                     "fake_sedov"),
        Ms=ints(0, 3), rt=ints(5, 7),
        method=pick("DOP853", "RK45", "BDF", "Radau"),
        evals=st.one_of(st.just([]), st.lists(num(0.1, 1, 0.05), min_size=1,
                                              max_size=3)),
        pts=st.one_of(st.just([]), st.lists(num(0, 1), min_size=1,
                                            max_size=6)))


CHECKS = [
    Check("slab", strat(SLAB), run, quick=200, thorough=3000, jit=40),
    Check("sphere", strat(BALL), run, quick=60, thorough=1000, jit=20),
]
