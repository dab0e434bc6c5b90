"""The mesh as a function of time: velocities and independence of history."""
import numpy as np

from .. import gen, lab, meshes
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st

RULE = "a moving mesh, an out-of-order history of three or more times"
ASSUMPTIONS = [
    "Finite domains wide enough that the mesh does not reach their edge "
    "(known finding: there the mesh latches and depends on its history).",
    "The velocity is not compared within 1e-4 of a time at which it jumps "
    "(the source switches off, a knot of the wave table, the first 1e-3 of "
    "the square-root mesh and of the wave-tracking mesh).",
]


def state(m, t):
    m.move(float(t))
    return np.array(m.edges, float), np.array(m.Dedges, float)


def any_order(d):
    """An adaptive integrator calls at times that go back and forth: what it
    sees at a time does not depend on where it has been."""
    p = meshes.params(d)
    tf = d["tf"]
    m = lab.make_mesh(p)
    for f in d["times"]:
        t = f * tf
        e, De = state(m, t)
        fe, fDe = state(lab.make_mesh(p), t)
        close(e, fe, f"{d['kind']}: edges at t={t} after {d['times']}", 1e-12,
              1e-12)
        close(De, fDe, f"{d['kind']}: speeds at t={t} after {d['times']}",
              1e-9, 1e-12)
        # and asking twice changes nothing
        e2, De2 = state(m, t)
        close(e2, e, "edges asked for twice", 0, 0)
        close(De2, De, "speeds asked for twice", 0, 0)
    return bool(p["moving"]) and len(d["times"]) >= 3 and \
        d["times"] != sorted(d["times"])


def velocity(d):
    """The velocity of an edge is the rate at which it moves."""
    p = meshes.params(dict(d, moving=1))
    tf, kind = d["tf"], d["kind"]
    stops = []
    if kind == "square_source_finite":
        stops = [p["t0"]]
    hit = False
    for f in d["times"]:
        t = 0.001 * tf + 0.997 * f * tf
        h = 1e-5 * tf
        if kind == "thick_track":
            a = np.array(p["wave_loc"])[0]
            stops = list(a[0])
            loc = np.interp([t - h, t, t + h], a[0], a[3])
            if np.min(loc) < p["x0"] + 3e-3 + p["pad"]:
                continue
        if any(abs(t - s) < 3 * h for s in stops):
            continue
        m = lab.make_mesh(p)
        lo, hi = state(m, t - h)[0], state(m, t + h)[0]
        e, De = state(m, t)
        rate = (hi - lo) / (2 * h)
        tol = 1e-4 if kind in ("thick_sqrt", "thick_track") else 1e-7
        close(De, rate, f"{kind}: speeds at t={t}", tol, 1e-6)
        hit = True
    return hit


times = st.lists(num(0, 1, 0.01), min_size=1, max_size=8)
CHECKS = [
    Check("any_order", meshes.strategy(times=times), any_order, quick=2000),
    Check("velocity", meshes.strategy(times=times), velocity, quick=1200),
]
