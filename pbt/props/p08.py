"""The numerical flux through moving cell edges."""
import math

import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st

RULE = "M >= 1, three or more cells, edges moving at different speeds"
ASSUMPTIONS = [
    "Two or more cells.",
    "The instant at which a boundary source is switched off is not compared.",
]


def setup(d, **kw):
    N = len(d["gaps"])
    # the mesh object only carries the edges: any mesh will do
    p = dict(geom=d["geom"], M=d["M"], N_ang=4, N_space=N, x0=0.5,
             source=(1, 0, 0, 0, 0, 0), xs_order=40, t0=d["t0"])
    p.update(kw)
    b = lab.make_build(p)
    edges = d["x"] + np.concatenate([[0.0], np.cumsum(d["gaps"])])
    v = np.array((d["v"] * 70)[:N + 1], float)
    mesh = lab.placed_mesh(p, edges, v)
    u = gen.coeffs(d["u"], (N + 1, d["M"] + 1))
    return lab.make_flux(b), mesh, edges, v, np.ascontiguousarray(u[:N]), \
        np.ascontiguousarray(u[N])


def trace(geom, u, a, b, x):
    f, _ = ref.basis(geom)
    return sum(float(f(i, x, a, b)) * u[i] for i in range(u.size))


def reference(geom, edges, v, u, mu, space, left, right):
    """Upwind in the frame of each edge; left/right are the values outside."""
    f, _ = ref.basis(geom)
    N, K = u.shape
    a, b = edges[space], edges[space + 1]
    sl, sr = mu - v[space], mu - v[space + 1]
    if sl >= 0:
        pl = left if space == 0 else trace(geom, u[space - 1],
                                           edges[space - 1], a, a)
    else:
        pl = trace(geom, u[space], a, b, a)
    if sr >= 0:
        pr = trace(geom, u[space], a, b, b)
    else:
        pr = right if space == N - 1 else trace(geom, u[space + 1], b,
                                                edges[space + 2], b)
    wl, wr = (1.0, 1.0) if geom == "slab" else (a * a, b * b)
    fl, fr = wl * sl * pl, wr * sr * pr
    return np.array([float(f(i, b, a, b)) * fr - float(f(i, a, a, b)) * fl
                     for i in range(K)]), fl, fr


def nontrivial(d):
    return d["M"] >= 1 and len(d["gaps"]) >= 3 and len(set(d["v"])) > 1


def check(d, flux, mesh, edges, v, u, refl, t, left, right, what):
    geom = d["geom"]
    N = len(d["gaps"])
    order = gen.rng(d["u"]["seed"]).permutation(N)
    inflow = {}
    for mu in d["mus"]:
        parts = {}
        for space in order:
            space = int(space)
            flux.make_LU(t, mesh, u, space, float(mu), refl)
            got = np.array(flux.LU)
            want, fl, fr = reference(geom, edges, v, u, mu, space, left, right)
            close(got, want, f"{what}: cell {space}, mu={mu}", 1e-9, 1e-11)
            k0 = 1.0 if geom == "slab" else math.sqrt(math.pi)
            parts[space] = got[0] * k0 * math.sqrt(edges[space + 1]
                                                   - edges[space])
            if space == 0:
                inflow["l"] = fl
            if space == N - 1:
                inflow["r"] = fr
        # what leaves a cell enters its neighbour: only the ends remain
        total = sum(parts.values())
        net = inflow["r"] - inflow["l"]
        scale = sum(abs(x) for x in parts.values()) + abs(net)
        if abs(total - net) > 1e-10 * (1 + scale):
            fail(f"{what}: the fluxes add up to {total}, the ends to {net}")


def vacuum(d):
    flux, mesh, edges, v, u, refl = setup(dict(d, geom="slab"))
    check(dict(d, geom="slab"), flux, mesh, edges, v, u, refl, d["t"], 0.0,
          0.0, "vacuum")
    return nontrivial(d)


def sphere(d):
    """The centre reflects: what comes in at -mu leaves at mu."""
    d = dict(d, geom="sphere", x=abs(d["x"]) if d["hollow"] else 0.0)
    flux, mesh, edges, v, u, refl = setup(d)
    left = trace("sphere", refl, edges[0], edges[1], edges[0])
    check(d, flux, mesh, edges, v, u, refl, d["t"], left, 0.0, "sphere")
    return nontrivial(d)


def boundary_source(d):
    d = dict(d, geom="slab")
    if abs(d["t"] - d["t0"]) < 1e-9:
        return False
    on = [int(x) for x in d["on"]]
    flux, mesh, edges, v, u, refl = setup(
        d, boundary_source=1, boundary_on=on, uncollided=bool(d["unc"]),
        boundary_source_strength=d["q"])
    q = d["q"] if d["t"] < d["t0"] and not d["unc"] else 0.0
    check(d, flux, mesh, edges, v, u, refl, d["t"], q * on[0], q * on[1],
          "boundary source")
    return nontrivial(d) and q > 0 and any(on)


def manufactured(d):
    """Beyond its mesh the manufactured solution is known: the incoming value
    is that of its projection on a cell as wide as the one at the end."""
    d = dict(d, geom="slab")
    flux, mesh, edges, v, u, refl = setup(d, source=(0, 0, 0, 0, 1, 0))
    t, K = d["t"], d["M"] + 1

    def ghost(a, b, x):
        c = [ref.gl_pieces(lambda y: np.exp(-y * y / 2) / 2 / (1 + t)
                           * ref.leg(i, y, a, b), np.linspace(a, b, 5))
             for i in range(K)]
        return sum(ci * float(ref.leg(i, x, a, b)) for i, ci in enumerate(c))
    h0, h1 = edges[1] - edges[0], edges[-1] - edges[-2]
    check(d, flux, mesh, edges, v, u, refl, t,
          ghost(edges[0] - h0, edges[0], edges[0]),
          ghost(edges[-1], edges[-1] + h1, edges[-1]), "manufactured")
    return nontrivial(d)


base = dict(M=rarely(ints(0, 7), 9, 11), x=num(-4, 4), t=num(0, 4, 0.01),
            t0=num(0.1, 4, 0.01),
            gaps=gen.widths(0.02, 2, 2, 6),
            v=st.lists(num(-2, 2, 0.1), min_size=1, max_size=7),
            mus=st.lists(num(-1, 1, 0.01), min_size=1, max_size=3),
            u=gen.coeff_spec())
CHECKS = [
    Check("vacuum", case(**base), vacuum, quick=800),
    Check("sphere", case(hollow=ints(0, 1), **base), sphere, quick=800),
    Check("boundary_source", case(on=st.tuples(ints(0, 1), ints(0, 1)).map(list),
                                  unc=pick(0, 0, 0, 1), q=rarely(num(0.1, 3, 0.1), 40.0, 1e3),
                                  **base), boundary_source, quick=600),
    Check("manufactured", case(**base), manufactured, quick=300),
]
