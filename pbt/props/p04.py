"""The mesh at every time: valid, placed where the problem needs it."""
import numpy as np

from .. import gen, lab, meshes
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st

RULE = "a moving mesh of four or more cells looked at after the start"
ASSUMPTIONS = [
    "Numbers of cells the mesh of each problem supports (square meshes in "
    "multiples of four, thick wave-tracking meshes in multiples of sixteen).",
    "Finite domains wide enough that the mesh does not reach their edge "
    "(known finding: there the mesh latches).",
    "The shock stays inside the slab.",
]
LINEAR = {"plane", "dipole", "gaussian", "noniso", "mms", "gaussian_source",
          "thick_plane", "thick_gaussian", "thick_gaussian_source",
          "thick_square", "thick_square_source", "point"}
RIM = {"square", "square_source", "shell"}


def valid(e, N, what):
    if e.shape != (N + 1,):
        fail(f"{what}: {e.size} edges for {N} cells")
    if not np.all(np.isfinite(e)):
        fail(f"{what}: an edge is not finite")
    if not np.all(np.diff(e) > 0):
        i = int(np.argmin(np.diff(e)))
        fail(f"{what}: edges {i} and {i+1} at {e[i]} and {e[i+1]}")


def has(e, x, what, tol=1e-9):
    if np.min(np.abs(e - x)) > tol * (1 + abs(x)):
        fail(f"{what}: no edge at {x}, the nearest is "
             f"{e[np.argmin(np.abs(e - x))]}")


def placed(d):
    p = meshes.params(d)
    kind, N, x0, tf, ev = d["kind"], p["N_space"], p["x0"], d["tf"], d["ev"]
    m = lab.make_mesh(p)
    moving = p["moving"]
    valid(np.array(m.edges), N, f"{kind} at the start")
    for f in d["times"]:
        t = f * tf
        m.move(t)
        e = np.array(m.edges, float)
        De = np.array(m.Dedges, float)
        what = f"{kind} at t={t}"
        valid(e, N, what)
        if De.shape != e.shape or not np.all(np.isfinite(De)):
            fail(f"{what}: edge velocities {De.shape}")
        if not moving and np.any(De != 0):
            fail(f"{what}: a static mesh has a velocity")
        tt = t if moving else tf
        # symmetry
        if p["geom"] == "sphere":
            if e[0] != 0 or De[0] != 0:
                fail(f"{what}: the innermost edge is at {e[0]}")
        elif kind != "boundary":
            mid = 0.01 if kind == "dipole" else 0.0
            close(e - mid, -(e - mid)[::-1], f"{what}: symmetric", 1e-9)
            close(De, -De[::-1], f"{what}: symmetric speeds", 1e-6, 1e-6)
        # where the mesh has to reach
        mid = 0.01 if kind == "dipole" else 0.0
        if kind in LINEAR and not (kind.startswith("thick") and not moving):
            if abs(e[-1] - mid - (x0 + ev * tt)) > 1e-9 * (1 + x0 + ev * tt):
                fail(f"{what}: ends at {e[-1]}, particles at {x0 + ev * tt}")
            if moving and abs(De[-1] - ev) > 1e-9:
                fail(f"{what}: outer edge speed {De[-1]}, not {ev}")
        if kind in RIM:
            if not x0 + ev * tt <= e[-1] + 1e-9 <= x0 + ev * tt + 0.0101:
                fail(f"{what}: ends at {e[-1]}, front at {x0 + ev * tt}")
            has(e, x0, what + " (rim)")
            if moving and abs(De[np.argmin(np.abs(e - x0))]) > 1e-12:
                fail(f"{what}: the rim of the source moves")
        if kind == "square_source_finite":
            if moving and t <= p["t0"]:
                has(e, x0, what + " (rim while the source is on)")
                if not x0 + ev * t <= e[-1] + 1e-9 <= x0 + ev * t + 0.0101:
                    fail(f"{what}: ends at {e[-1]}, front {x0 + ev * t}")
            if tt == tf:
                close(e, np.linspace(-p["pad"], p["pad"], N + 1),
                      f"{what}: final mesh", 1e-8)
            if moving and t > p["t0"] and not \
                    e[-1] >= x0 + ev * p["t0"] - 1e-9:
                fail(f"{what}: the mesh has shrunk to {e[-1]}")
        if kind == "boundary":
            if abs(e[0] + x0) > 1e-9 * x0 or abs(e[-1] - x0) > 1e-9 * x0:
                fail(f"{what}: slab from {e[0]} to {e[-1]}, not ±{x0}")
            shock = -p["fake_sedov_v0"] * (t if moving else 0.0)
            if abs(e[N // 2] - shock) > 1e-9 * x0:
                fail(f"{what}: middle edge at {e[N//2]}, shock at {shock}")
        if kind == "thick_track" and moving and t > 0:
            a = np.array(p["wave_loc"])[0]
            loc = float(np.interp(t, a[0], a[3]))
            if loc > x0 + 2e-3:
                has(e, loc, what + " (thermal wave)", 1e-6)
                has(e, loc + p["pad"], what + " (ahead of the wave)", 1e-6)
                has(e, loc + p["leader_pad"], what + " (leader)", 1e-6)
            has(e, x0, what + " (rim)")
        if kind == "thick_sqrt":
            has(e, x0, what + " (rim)", 1e-6)
            if moving and t > 0:
                reach = x0 + ev * d["mf"] * t ** 0.5
                if abs(e[-1] - reach) > 1e-6 * (1 + reach):
                    fail(f"{what}: ends at {e[-1]}, not {reach}")
    return bool(moving) and N >= 4 and max(d["times"]) > 0


def static_is_final(d):
    """The static mesh is the moving mesh at the final time."""
    p = meshes.params(dict(d, moving=1))
    q = dict(p, moving=False)
    m, s = lab.make_mesh(p), lab.make_mesh(q)
    if d["kind"] == "boundary":
        # by construction: the shock mesh is uniform when it does not move
        N, x0 = p["N_space"], p["x0"]
        close(np.array(s.edges), np.linspace(-x0, x0, N + 1), "static slab",
              1e-12)
        return True
    # visit some times in between, as an integrator does
    for f in d["times"]:
        m.move(f * d["tf"])
    m.move(d["tf"])
    close(np.array(s.edges), np.array(m.edges),
          f"{d['kind']}: static mesh against the final moving one", 1e-9)
    before = np.array(s.edges)
    for f in d["times"]:
        s.move(f * d["tf"])
        close(np.array(s.edges), before, "static mesh moved", 0, 0)
        if np.any(np.array(s.Dedges) != 0):
            fail("static mesh has a velocity")
    return p["N_space"] >= 4


times = st.lists(num(0, 1, 0.01), min_size=1, max_size=6)
CHECKS = [
    Check("placed", meshes.strategy(times=times.map(sorted)), placed,
          quick=2400),
    Check("static_is_final", meshes.strategy(
        kinds=[k for k in meshes.KINDS
               if k not in ("thick_track", "thick_square_track",
                            "thick_gaussian", "thick_gaussian_source",
                            "thick_sqrt")],
        times=times), static_is_final, quick=1200),
]
