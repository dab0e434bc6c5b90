"""Probes of the known findings: exit 1 while the finding is still there."""
import os
import sys

import numpy as np


def mesh_latches():
    """Square source, finite domain: an edge that reached the wall stays."""
    from . import lab
    p = lab.full(dict(source=(0, 0, 1, 0, 0, 0), N_space=8, x0=0.5,
                      tfinal=4.0, t0=3.0, pad=6.0, finite_domain=1,
                      domain_width=3.0))
    a, b = lab.make_mesh(p), lab.make_mesh(p)
    a.move(0.2)
    b.move(2.0)
    b.move(0.2)
    return not np.allclose(a.edges, b.edges)


def square_jumps():
    """Square pulse, finite domain: at the final time the mesh is another."""
    from . import lab
    p = lab.full(dict(source=(0, 1, 0, 0, 0, 0), N_space=8, x0=0.5,
                      tfinal=1.0, finite_domain=1, domain_width=10.0))
    m = lab.make_mesh(p)
    m.move(1.0 - 1e-9)
    a = np.array(m.edges)
    m.move(1.0)
    return not np.allclose(a, m.edges, atol=1e-6)


def sqrt_mesh_stands():
    """Thick square source, infinite domain: edges stand while their reported
    velocity is not zero."""
    from . import lab
    p = lab.full(dict(source=(0, 0, 1, 0, 0, 0), N_space=8, x0=0.5, thick=1,
                      tfinal=1.0, move_type=(0, 0, 1, 0)))
    m = lab.make_mesh(p)
    e = np.array(m.edges)
    m.move(0.5)
    return bool(np.allclose(e, m.edges) and np.any(np.array(m.Dedges) != 0))


def plane_two_cells():
    """Plane pulse on a static mesh of two cells: half of it is lost."""
    from . import lab
    p = lab.full(dict(source=(1, 0, 0, 0, 0, 0), N_space=2, x0=1e-6,
                      moving=False, sigma_t=1.0))
    b = lab.make_build(p)
    b.make_IC()
    e = np.array(lab.make_mesh(p).edges)
    u = np.array(b.IC)
    ws = lab.angles(p["N_ang"], p["weights"])[1]
    total = sum(w * u[l, :, 0] @ np.sqrt(np.diff(e)) for l, w in enumerate(ws))
    return not abs(total - 1.0) < 1e-3


def dipole_odd():
    from . import lab
    p = lab.full(dict(source=(2, 0, 0, 0, 0, 0), N_space=5, x0=0.5,
                      moving=False))
    b = lab.make_build(p)
    b.make_IC()
    return not np.all(np.isfinite(np.array(b.IC)))


def psi_shared():
    """Angular flux of two problem types under one key."""
    from .props import p21
    k = dict(problem=0, source=1, unc=0, mov=0, N=2, t=1.0, c=1.0, x0=0.5,
             cv=0.0, eps=1.0)
    got = []
    with p21.Disk():
        for pr in (0, 5):
            q = dict(k, problem=pr)
            a = p21.arrays(dict(seed=pr, n=3, na=2, M=1), q)
            s = p21.saver(q, dict(source=1, N_spaces=[2], Ms=[1],
                                  N_angles=[2]))
            s.save_solution(a["xs"], a["phi"], a["e"], a["coef"], a["edges"],
                            0.5, a["ws"], 2, False, a["psi"], 1.0, a["mus"])
            got.append(a["psi"])
        o = p21.load(k, "rad")
        return o is None or not np.array_equal(o.psi, got[0])


def driver(kind, evals, check):
    from .props import p11, p21, p26
    from . import lab
    from .shim import mod
    src = {"square": [0, 1], "boundary": [0, 0]}[kind] + [0] * 14
    p = lab.full(dict(source=src, N_space=4, M=1, N_ang=2, x0=0.5, tfinal=0.4,
                      weights="gauss_legendre", boundary_on=[1, 0],
                      boundary_source=int(kind == "boundary"),
                      boundary_source_strength=1.0, sigma=0.0))
    d = dict(kind=kind, method="DOP853")
    p11.scratch()
    lab.solve(p)
    with p21.Disk(), p26.Input():
        pars, mesh = p26.inputs(d, p, dict(
            N_spaces=[4], Ms=[1], N_angles=[2], x0=[0.5], major="cells"),
            dict(save=True, evals=evals))
        s = mod("solver").main_class(p26.METHOD[kind], pars, mesh)
        s.main(False, True)
        return check(p, d)


def stale_coefficients():
    """Saved at two times: coefficients of the first are those of the last."""
    from .props import p26

    def check(p, d):
        a = p26.stored(p, d, 0, 1, 0.2, 0.5)
        b = p26.stored(p, d, 0, 1, 0.4, 0.5)
        return np.array_equal(a.coeff_mat, b.coeff_mat)
    return driver("square", [0.2, 0.4], check)


def boundary_name():
    """A boundary source is saved under the name of the plane pulse."""
    from .props import p26

    def check(p, d):
        return p26.stored(p, d, 0, 1, 0.4, 0.5) is not None
    return driver("boundary", [], check)


def shipped_inputs():
    """The coupled input files shipped cannot be read."""
    import yaml
    from .shim import REPO, mod
    top = os.path.join(REPO, "moving_mesh_transport", "input_scripts")
    cls = mod("loading_and_saving.load_parameters").parameter_load_class
    with open(os.path.join(top, "mesh_parameters.yaml")) as f:
        mesh = yaml.safe_load(f)
    for n in sorted(os.listdir(top)):
        if not n.endswith(".yaml") or n in ("mesh_parameters.yaml",
                                            "transport.yaml"):
            continue
        with open(os.path.join(top, n)) as f:
            pars = yaml.safe_load(f)
        try:
            cls("square_source", pars, mesh)
        except (AttributeError, KeyError, TypeError):
            return True
    return False


def coupled_energy():
    """A coupled problem: the reported energy is zero."""
    from . import lab
    from .props import p11
    p11.scratch()
    p = lab.full(dict(source=(0, 1, 0, 0, 0, 0), N_space=4, M=1, N_ang=2,
                      x0=0.5, tfinal=0.1, thermal=1, e_init=0.5,
                      weights="gauss_legendre", temp_function=(1, 0)))
    try:
        return bool(np.all(np.array(lab.solve(p)["e"]) == 0))
    except Exception:               # noqa: BLE001
        return True


def file_names():
    """Results are looked for in another file than they are saved in."""
    from .shim import mod
    s = mod("loading_and_saving.save_output").save_output(
        1.0, [2], [1], [0, 1, 0, 0, 0, 0], True, False, "cells", 0, [0, 0],
        1.0, 0.0, [0.5], 0.0, "transport", [2], 1.0)
    o = mod("loading_and_saving.load_solution").load_sol()
    return str(o.data_file_path) != str(s.solution_file_path) or \
        str(o.wavepoints_file_path) != str(s.wavepoints_file_path)


def scaled_time():
    """Scaled benchmark at t = 31.6228: looked up at the unscaled time."""
    from .props import p22
    from .shim import mod
    with p22.Bench() as b:
        a, c = p22.table(1, 5, 1.0), p22.table(2, 5, 1.0)
        p22.write(b.top, {("square_IC", 31.6228): a,
                          ("square_IC", 31.6228 * 0.5): c})
        o = mod("loading_and_saving.load_bench").load_bench(
            [0, 1] + [0] * 14, 31.6228, np.array([0.5]), 0.5, True)
        return not np.allclose(o(np.array([0.0, 1.0]))[0], c[1][[0, -1]])


def find_wave_fails():
    """find_wave_loc: the cross section is indexed like an array."""
    from .shim import mod
    try:
        mod("solver_functions.wave_loc_estimator").find_wave(
            2, 4, np.ones(2), 1, False, None, None, 0, 1.0, 0.5,
            np.array([1.0]), 1.0, np.array([0, 0, 1]), 1.0)
    except TypeError:
        return True
    return False


if __name__ == "__main__":
    from . import core
    core.hypothesis()
    failed = globals()[sys.argv[1]]()
    from . import shim
    shim.say("still there" if failed else "gone")
    sys.exit(1 if failed else 0)
