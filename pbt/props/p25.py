"""Wave tables: interpolation, the mesh that follows them, the front."""
import numpy as np

from .. import gen, lab, meshes
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rng, st
from ..shim import mod

RULE = "a wave that has left the source, or a table of three or more entries"
ASSUMPTIONS = [
    "Tables start at time zero and increase; the wave moves outward.",
    "Finite domain wide enough not to be reached.",
]


def table(v):
    r = rng(v["seed"])
    t = v["t0"] + np.concatenate([[0.0], np.cumsum(v["gaps"])])
    y = r.normal(size=t.size)
    f = mod("solver_classes.mesh_functions")._interp1d
    for a in v["at"]:
        x = t[0] + (t[-1] - t[0]) * a / 1000.0
        if a == 2000:
            x = t[-1]
        if a == 2001:
            x = t[len(v["gaps"]) // 2]
        q = np.zeros(t.size)
        q[0] = x
        got = f(q, t, y, np.zeros(t.size))[0]
        if x < t[0]:                      # from the origin
            want = y[0] * x / t[0]
        elif x >= t[-1]:                  # the last interval goes on
            want = y[-1] + (x - t[-1]) * (y[-1] - y[-2]) / (t[-1] - t[-2])
        else:
            want = np.interp(x, t, y)
        close([got], [want], f"wave at t={x} in {t.tolist()}", 1e-11, 1e-11 *
              max(1, np.max(np.abs(y))))
    return t.size >= 3


def follows(d):
    """Edges of the mesh that tracks the wave, in any order of times."""
    p = lab.full(meshes.params(dict(d, moving=1)))
    m = lab.make_mesh(p)
    N, x0 = p["N_space"], p["x0"]
    a = np.array(p["wave_loc"])[0]
    e0 = np.array(lab.make_mesh(p).edges)
    mid, side = N // 2, N // 4
    moved = False
    for f in d["times"]:
        t = f * d["tf"]
        m.move(float(t))
        e = np.array(m.edges)
        w = np.interp(t, a[0], a[3])
        want = e0.copy()
        if t > 0 and w >= x0:
            moved = True
            off = (p["leader_pad"], p["pad"], 0.0, -p["pad"])
            for k in range(4):
                want[N - k] = max(w + off[k], e0[N - k])
            want[mid + side:N - 3] = np.linspace(x0, want[N - 3],
                                                 side - 2)[:-1]
            want[:side] = -want[mid + side + 1:][::-1]
        close(e, want, f"tracking mesh at t={t}", 1e-10, 1e-10)
        inner = e[side:side + mid + 1]
        close(inner, e0[side:side + mid + 1], "cells of the source", 0, 0)
    return moved


def front(v):
    """The front is where the energy falls most steeply."""
    r = rng(v["seed"])
    n = v["n"]
    xs = np.sort(r.normal(size=n)) * v["scale"]
    d = r.normal(size=n)
    cls = mod("solver_functions.wave_loc_estimator").find_wave
    o = cls(2, 4, np.ones(2), 1, False, None, None, 0, 1.0, v["x0"],
            np.array([1.0]), 1.0, np.array([0, 0, 1]), np.array([2.0]))
    got = o.find_T_wave(xs, d)
    close([got], [abs(xs[np.argmin(d)])], "front", 0, 0)
    return n >= 3


CHECKS = [
    Check("table", case(seed=ints(0, 10 ** 6), t0=num(0.05, 2, 0.01),
                        gaps=st.lists(num(0.01, 2, 0.01), min_size=1,
                                      max_size=8),
                        at=st.lists(st.one_of(ints(-300, 1500),
                                              pick(0, 1000, 2000, 2001)),
                                    min_size=2, max_size=8)),
          table, quick=800, thorough=9000, jit=200),
    Check("follows", meshes.strategy(
        ["thick_track"], times=st.lists(num(0, 1, 0.01), min_size=2,
                                        max_size=5)), follows,
          quick=300, thorough=4000, jit=60),
    Check("front", case(seed=ints(0, 10 ** 6), n=ints(1, 40),
                        scale=num(0.1, 400, 0.1), x0=num(0.1, 400, 0.1)),
          front, quick=150, thorough=1000, jit=30),
]
