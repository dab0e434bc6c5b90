"""Building the code's objects from a plain dictionary of parameters."""
import numpy as np

from . import ref, shim
from .shim import D, MODE, mod  # noqa: F401

DEFAULTS = dict(
    geom="slab", N_ang=4, N_space=4, M=2, tfinal=1.0, x0=0.5, t0=1.0,
    sigma_t=1.0, sigma_s=1.0, source=(0, 1, 0, 0, 0, 0), uncollided=False,
    moving=True, move_type=(1, 0, 0, 0), t_nodes=20, e_init=0.0, sigma=0.5,
    particle_v=1.0, edge_v=1.0, cv0=0.0, thick=0, source_strength=1.0,
    move_factor=1.0, l=1.0, save_wave_loc=0, pad=0.0, leader_pad=0.0,
    boundary_on=(0, 0), boundary_source_strength=0.0, boundary_source=0,
    sigma_func="constant", Msigma=0, finite_domain=0, domain_width=-1.0,
    fake_sedov_v0=0.0, test_dimensional_rhs=0, epsilon=1.0, weights=None,
    temp_function=(0, 0), thermal=0, wave_loc=None, xs_order=None)

OPACITIES = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")
_cache = {}


def full(p):
    q = dict(DEFAULTS)
    q.update(p)
    if q["weights"] is None:
        q["weights"] = "gauss_legendre" if q["N_ang"] == 2 else "gauss_lobatto"
    return q


def geo(p):
    return D(slab=p["geom"] == "slab", sphere=p["geom"] == "sphere")


def opacity_dict(p):
    return D(**{k: k == p["sigma_func"] for k in OPACITIES})


def angles(n, weights):
    """Angular quadrature from an independent source (ws sum to 2)."""
    if weights == "gauss_legendre":
        return np.polynomial.legendre.leggauss(n)
    return ref.lobatto(n), ref.lobatto_ws(n)


def spatial_quad(p):
    if p["geom"] == "slab":
        return np.polynomial.legendre.leggauss(p["xs_order"] or 2 * p["M"] + 1)
    n = p["xs_order"] or 6 * p["M"] + 1
    k = np.arange(1, n + 1)
    return np.cos((2 * k - 1) * np.pi / 2 / n), np.full(n, np.pi / n)


def wave_loc(p):
    if p["wave_loc"] is None:
        return np.zeros((1, 4, 3))
    return np.array(p["wave_loc"], dtype=float)


def i64(v):
    return np.array(v, dtype=np.int64)


def make_build(p):
    p = full(p)
    key = "build"
    if key not in _cache:
        _cache[key] = mod("solver_classes.build_problem").build
    mus, ws = angles(p["N_ang"], p["weights"])
    xq, wq = spatial_quad(p)
    tq, tw = np.polynomial.legendre.leggauss(p["t_nodes"])
    N = p["N_space"]
    return _cache[key](
        p["N_ang"], N, p["M"], float(p["tfinal"]), float(p["x0"]),
        float(p["t0"]), mus, ws, xq, wq, float(p["sigma_t"]),
        float(p["sigma_s"]), i64(p["source"]), bool(p["uncollided"]),
        bool(p["moving"]), i64(p["move_type"]), tq, tw,
        D(none=0 if p["thermal"] else 1), i64(p["temp_function"]),
        float(p["e_init"]), float(p["sigma"]), float(p["particle_v"]),
        float(p["edge_v"]), float(p["cv0"]), int(p["thick"]), wave_loc(p),
        float(p["source_strength"]), float(p["move_factor"]), float(p["l"]),
        int(p["save_wave_loc"]), float(p["pad"]), float(p["leader_pad"]),
        ref.lobatto(N // 2 + 1), ref.lobatto(N // 4 + 1),
        i64(p["boundary_on"]), float(p["boundary_source_strength"]),
        int(p["boundary_source"]), opacity_dict(p), int(p["Msigma"]),
        int(p["finite_domain"]), float(p["domain_width"]),
        float(p["fake_sedov_v0"]), int(p["test_dimensional_rhs"]),
        float(p["epsilon"]), geo(p))


def make_mesh(p):
    p = full(p)
    N = p["N_space"]
    return mod("solver_classes.mesh").mesh_class(
        N, float(p["x0"]), float(p["tfinal"]), bool(p["moving"]),
        i64(p["move_type"]), i64(p["source"]), float(p["edge_v"]),
        int(p["thick"]), float(p["move_factor"]), wave_loc(p),
        float(p["pad"]), float(p["leader_pad"]), ref.lobatto(N // 2 + 1),
        ref.lobatto(N // 4 + 1), int(p["finite_domain"]),
        float(p["domain_width"]), float(p["fake_sedov_v0"]),
        i64(p["boundary_on"]), float(p["t0"]), geo(p))


def make_matrices(b, K=11):
    if ("tab", K) not in _cache:
        _cache[("tab", K)] = ref.coefficient_tables(K)
    t = _cache[("tab", K)]
    return mod("solver_classes.matrices").G_L(b, *[t[k].copy() for k in ref.ORDER])


def make_flux(b):
    return mod("solver_classes.numerical_flux").LU_surf(b)


def make_source(b):
    return mod("solver_classes.sources").source_class(b)


def make_unc(b):
    return mod("solver_classes.uncollided_solutions").uncollided_solution(b)


def make_phi(b):
    return mod("solver_classes.phi_class").scalar_flux(b)


def make_T(b):
    return mod("solver_classes.radiative_transfer").T_function(b)


def make_sigma(b):
    return mod("solver_classes.opacity").sigma_integrator(b)


class Rhs:
    """The assembled right-hand side, as solve() assembles it."""

    def __init__(self, p, K=11):
        self.p = p = full(p)
        self.b = make_build(p)
        self.mesh = make_mesh(p)
        self.mat = make_matrices(self.b, K)
        self.flux = make_flux(self.b)
        self.src = make_source(self.b)
        self.unc = make_unc(self.b)
        self.phi = make_phi(self.b)
        self.T = make_T(self.b)
        self.sig = make_sigma(self.b)
        self.phi.load_AAA(self.sig.AAA)
        self.rhs = mod("solver_classes.rhs_class_1").rhs_class(self.b)
        self.shape = (p["N_ang"], p["N_space"], p["M"] + 1)

    def __call__(self, t, V):
        V = np.ascontiguousarray(V, dtype=float).reshape(-1)
        return self.rhs.call(float(t), V, self.mesh, self.mat, self.flux,
                             self.src, self.unc, self.phi, self.T,
                             self.sig).reshape(self.shape)


class MeshView:
    """A mesh object placed at chosen edges (real mesh class in jit mode)."""


def placed_mesh(p, edges, Dedges):
    m = make_mesh(p)
    m.edges = np.array(edges, dtype=float)
    m.Dedges = np.array(Dedges, dtype=float)
    return m


def solve(p, **o):
    """The code's own solve() on a parameter dictionary.  o: rt, at, mxstp,
    integrator, eval_array, xs."""
    import os
    p = full(p)
    folder = os.path.join("moving_mesh_transport", "matrix_files")
    if not os.path.exists(os.path.join(folder, "VVMatrix.h5")):
        ref.write_matrix_files(folder, 10)
    f = mod("solver_functions.main_functions").solve
    ev = o.get("eval_array")
    xs = o.get("xs")
    names = ("xs phi psi exit_dist exit_phi e time sol mus ws edges wavespeed "
             "tpnts left right wave_t wave_x T_front mus2").split()
    out = f(float(p["tfinal"]), p["N_space"], p["N_ang"], p["M"],
            float(p["x0"]), float(p["t0"]), float(p["sigma_t"]),
            float(p["sigma_s"]), p["t_nodes"], i64(p["source"]),
            bool(p["uncollided"]), bool(p["moving"]), i64(p["move_type"]),
            D(none=0 if p["thermal"] else 1), i64(p["temp_function"]),
            o.get("rt", 1e-6), o.get("at", 1e-8), float(p["e_init"]),
            xs is not None, np.array(xs if xs is not None else [0.0], float),
            p["weights"], float(p["sigma"]), float(p["particle_v"]),
            float(p["edge_v"]), float(p["cv0"]), False, False,
            int(p["thick"]), o.get("mxstp", 1.0), wave_loc(p), 1e9,
            float(p["source_strength"]), float(p["move_factor"]),
            o.get("integrator", "DOP853"), float(p["l"]), False,
            float(p["pad"]), float(p["leader_pad"]), 25, ev is not None,
            np.array(ev if ev is not None else [1.0], float),
            i64(p["boundary_on"]), float(p["boundary_source_strength"]),
            int(p["boundary_source"]), opacity_dict(p), int(p["Msigma"]),
            int(p["finite_domain"]), float(p["domain_width"]),
            float(p["fake_sedov_v0"]), int(p["test_dimensional_rhs"]),
            float(p["epsilon"]), geo(p))
    return dict(zip(names, out))
