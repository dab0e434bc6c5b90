"""The solution handed to the user: point values, scalar flux, exit flux."""
import math

import numpy as np

from .. import gen, lab, ref, shim
from ..core import Check
from ..gen import case, close, ints, num, pick, st

RULE = "two or more cells, M >= 1, and a point strictly inside a cell"
ASSUMPTIONS = [
    "On an interior edge the value is the one of the cell to the left.",
    "Sphere: basis index at most 11, the range of the code's Chebyshev basis.",
]


def output(d, u, xs, edges, unc=0, t=0.5, x0=0.5):
    p = lab.full(dict(geom=d["geom"], N_ang=d["ang"], M=d["M"],
                      N_space=len(d["gaps"]), x0=x0,
                      source=(0, 1, 0, 0, 0, 0), uncollided=bool(unc)))
    b = lab.make_build(p)
    mus, ws = lab.angles(d["ang"], p["weights"])
    ws = ws / np.sum(ws) * d["wsum"]
    mk = shim.mod("solver_classes.make_phi").make_output
    o = mk(float(t), d["ang"], ws, np.asarray(xs, float), u, d["M"], edges,
           int(unc), lab.geo(p))
    return o, lab.make_unc(b), ws


def locate(edges, x):
    """The cell a point is reported from, or None outside the mesh."""
    if x < edges[0] or x > edges[-1]:
        return None
    for k in range(edges.size - 1):
        if x <= edges[k + 1]:
            return k


def expand(geom, u, edges, x):
    """u[..., cell, i] -> values at x, from the definition of the basis."""
    k = locate(edges, x)
    if k is None:
        return np.zeros(u.shape[:-2])
    f, _ = ref.basis(geom)
    B = np.array([float(f(i, x, edges[k], edges[k + 1]))
                  for i in range(u.shape[-1])])
    return u[..., k, :] @ B


def setup(d):
    edges = np.concatenate([[d["x"]], d["x"] + np.cumsum(d["gaps"])])
    if d["geom"] == "sphere":
        edges = edges - edges[0]
    xs = []
    for kind, v in d["pts"]:
        if kind == 0:                           # an edge
            xs.append(edges[int(v * 997) % edges.size])
        else:                                   # anywhere, also outside
            xs.append(edges[0] + (1.2 * v - 0.1) * (edges[-1] - edges[0]))
    u = gen.coeffs(d["u"], (d["ang"] + 1, len(d["gaps"]), d["M"] + 1))
    inside = any(k and 0.1 < v < 0.9 for k, v in d["pts"])
    return edges, np.array(xs, float), u, inside


def values(d):
    edges, xs, u, inside = setup(d)
    uu = np.ascontiguousarray(u[:-1])
    o, unc, ws = output(d, uu, xs, edges)
    phi = np.array(o.make_phi(unc))
    want = np.array([expand(d["geom"], uu, edges, x) for x in xs]).T
    close(np.array(o.psi_out), want, "angular flux", 1e-10)
    close(phi, ws @ want, "scalar flux", 1e-10)
    close(np.array(o.phi_out), ws @ want, "stored scalar flux", 1e-10)
    return inside and len(d["gaps"]) >= 2 and d["M"] >= 1


def exit_flux(d):
    edges, xs, u, inside = setup(d)
    uu = np.ascontiguousarray(u[:-1])
    o, unc, ws = output(d, uu, xs, edges)
    psi, phi = o.get_exit_dist(unc)
    want = np.array([expand(d["geom"], uu, edges, x)
                     for x in (edges[0], edges[-1])]).T
    close(np.array(psi), want, "exit angular flux", 1e-10)
    close(np.array(phi), ws @ want, "exit scalar flux", 1e-10)
    return len(d["gaps"]) >= 2 and d["M"] >= 1


def energy(d):
    """Slab: the material energy density and its spatial derivative."""
    d = dict(d, geom="slab")
    edges, xs, u, inside = setup(d)
    # the derivative is two-valued on an edge: keep off them
    xs = np.array([x for x in xs if np.min(np.abs(edges - x)) > 1e-7])
    if xs.size == 0:
        return False
    o, unc, ws = output(d, u, xs, edges)
    e = np.array(o.make_e())
    close(e, [expand("slab", u, edges, x)[-1] for x in xs], "energy", 1e-10)
    close(np.array(o.e_out), e, "stored energy", 0, 0)
    de = []
    for x in xs:
        k = locate(edges, x)
        de.append(0.0 if k is None else sum(
            u[-1, k, i] * float(ref.dleg(i, x, edges[k], edges[k + 1]))
            for i in range(d["M"] + 1)))
    close(np.array(o.dx_e), de, "energy gradient", 1e-9)
    return inside and d["M"] >= 1


def with_uncollided(d):
    """Collided and uncollided parts add up (square pulse, exact formula)."""
    d = dict(d, geom="slab")
    edges, xs, u, inside = setup(d)
    uu = np.ascontiguousarray(u[:-1])
    t, x0 = d["t"], d["x0"]

    def exact(x):
        lo, hi = max(x - t, -x0), min(x + t, x0)
        return math.exp(-t) * max(0.0, hi - lo) / (2 * t)
    xs = np.array([x for x in xs if min(abs(abs(x) - x0 - t),
                                        abs(abs(x) - abs(x0 - t))) > 1e-9])
    if xs.size == 0:
        return False
    o, unc, ws = output(d, uu, xs, edges, 1, t, x0)
    phi = np.array(o.make_phi(unc))
    want = np.array([expand("slab", uu, edges, x) for x in xs]).T
    f = np.array([exact(x) for x in xs])
    close(phi, ws @ want + f, "total scalar flux", 1e-9, 1e-9)
    close(np.array(o.psi_out), want, "collided angular flux", 1e-10)
    psi, ephi = o.get_exit_dist(unc)
    ends = np.array([expand("slab", uu, edges, x)
                     for x in (edges[0], edges[-1])]).T
    if all(min(abs(abs(x) - x0 - t), abs(abs(x) - abs(x0 - t))) > 1e-9
           for x in (edges[0], edges[-1])):
        close(np.array(ephi), ws @ ends + [exact(edges[0]), exact(edges[-1])],
              "total exit flux", 1e-9, 1e-9)
    return bool(np.any(f > 0)) and d["M"] >= 1


common = dict(
    geom=pick("slab", "sphere"), ang=gen.rarely(pick(2, 4, 6, 8), 16, 32),
    M=gen.rarely(ints(0, 7), 9, 11),
    x=num(-3, 3), gaps=gen.widths(0.02, 2, 1, 7),
    pts=st.lists(st.tuples(ints(0, 2), num(0, 1)).map(list), min_size=1,
                 max_size=6),
    u=gen.coeff_spec(), wsum=pick(2.0, 1.0))
CHECKS = [
    Check("values", case(**common), values, quick=2400),
    Check("exit", case(**common), exit_flux, quick=1200),
    Check("energy", case(**common), energy, quick=1200),
    Check("collided_plus_uncollided",
          case(t=num(0.05, 4), x0=num(0.1, 3, 0.05), **common),
          with_uncollided, quick=800),
]
