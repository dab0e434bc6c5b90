"""Input: what the input files say is what the solver is given."""
import copy
import math
import os
import shutil

import numpy as np
import yaml

from .. import gen, lab  # noqa: F401
from ..core import Check
from ..gen import case, fail, ints, num, pick, st
from ..shim import REPO, mod
from . import p11

RULE = "a complete input with at least two non-default settings"
ASSUMPTIONS = [
    "The input is complete: a missing entry is an error of the user.",
    "yaml.safe_load is trusted to read what yaml.safe_dump wrote.",
]
SECTIONS = ["plane_IC", "square_IC", "square_source", "gaussian_IC",
            "gaussian_source", "MMS", "boundary_source", "dipole",
            "self_sim_plane"]
OPAC = ["constant", "linear", "siewert1", "siewert2", "gaussian",
        "fake_sedov"]
small = num(0.01, 50, 0.001)
flag = st.booleans()
number = st.one_of(ints(1, 40), small)


def onehot(names):
    return pick(*names).map(lambda k: {n: n == k for n in names})


def build(v):
    """The two dictionaries of the input files from the drawn values."""
    n = v["n"]
    a = dict(v["all"], N_spaces=v["N_spaces"][:n], Ms=v["Ms"][:n])
    sec = dict(v["sec"], N_angles=v["N_angles"][:n])
    other = dict(sec, x0=[9.75], source_strength=77.0, l=66.0, sigma=55.0,
                 bench_type="other", benchmarking=not sec["benchmarking"],
                 source_type=[1 - s for s in sec["source_type"]],
                 move_type=[7, 7], N_angles=[2] * n)
    pars = {"all": a}
    for s in SECTIONS:
        pars[s] = copy.deepcopy(sec if s == v["section"] else other)
    mesh = dict(v["mesh"])
    if v["digits"]:                     # yes and no written as 1 and 0
        for d in (a, sec, mesh):
            for k, x in d.items():
                if isinstance(x, bool):
                    d[k] = int(x)
                elif isinstance(x, dict):
                    d[k] = digits(x)
    return pars, mesh


def digits(d):
    return {k: int(x) for k, x in d.items()}


def expected(v, pars, mesh):
    a, s, name = pars["all"], pars[v["section"]], v["section"]
    gauss = name.startswith("gaussian")
    speed = {"one": 1.0, "sqrt_3": 1 / math.sqrt(3)}
    want = dict(
        tfinal=a["tfinal"], N_spaces=a["N_spaces"], Ms=a["Ms"],
        N_runs=a["N_runs"], t_nodes=a["tnodes"], c_scaling=a["c_scaling"],
        rt=a["rt"], at=a["at"], t0=a["t0"], major=a["major"],
        thermal_couple=a["radiative_transfer"],
        temp_function=a["temperature_dependence"], e_initial=a["e_initial"],
        weights=a["weights"], cv0=a["cv_const"],
        problem_type=a["problem_name"], sigma_t=a["sigma_t"],
        sigma_s=a["sigma_s"], scattering_ratio=a["sigma_s"] / a["sigma_t"],
        integrator=a["integrator"], epsilon=a["epsilon"],
        geometry=a["geometry"], thick=a["thick"], mxstp=a["mxstp"],
        l=s["l"] if a["thick"] else 1.0, edge_v=speed[a["edge_v"]],
        particle_v=speed[a["particle_v"]], saving=a["save_solution"],
        N_angles=s["N_angles"], source_type=s["source_type"],
        source_strength=s["source_strength"], x0=s["x0"],
        move_type=s["move_type"], benchmarking=s["benchmarking"],
        r_times=[0.0] * v["n"], RMS_list=[0.0] * v["n"],
        RMS_list_energy=[0.0] * v["n"], sigma=s["sigma"] if gauss else 0,
        x0_or_sigma=s["sigma"] if gauss else s["x0"],
        bench_type=s["bench_type"] if name in
        ("square_source", "gaussian_source") else "full",
        test_dimensional_rhs=a["epsilon_scaling"],
        find_edges_tol=mesh["find_edges_tol"],
        move_factor=mesh["sqrt_t_move_factor"],
        domain_width=mesh["domain_width"] if mesh["finite"] else -1,
        finite_domain=mesh["finite"], specified_xs=mesh["xs_list"])
    for k in ("save_wave_loc", "find_wave_loc", "estimate_wavespeed",
              "choose_xs", "pad", "leader_pad", "xs_quad", "eval_times",
              "eval_array", "boundary_on", "boundary_source",
              "boundary_source_strength", "sigma_func", "Msigma",
              "fake_sedov_v0"):
        want[k] = mesh[k]
    return want


def same(got, want):
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, dict):
        return {str(k): int(x) for k, x in dict(got).items()} == \
            {k: int(x) for k, x in want.items()}
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and bool(np.all(
        got.astype(float) == want.astype(float)))


def compare(obj, want, where):
    for k, w in want.items():
        if not hasattr(obj, k):
            fail(f"{where}: {k} is not set")
        if not same(getattr(obj, k), w):
            fail(f"{where}: {k} is {getattr(obj, k)!r} instead of {w!r}")


def reads(v):
    pars, mesh = build(v)
    keep = copy.deepcopy((pars, mesh))
    cls = mod("loading_and_saving.load_parameters").parameter_load_class
    want = expected(v, pars, mesh)
    compare(cls(v["section"], pars, mesh), want, "dictionary")
    if (pars, mesh) != keep:
        fail("reading the input changed it")
    main = mod("solver").main_class
    compare(main(v["section"], pars, mesh), want, "solver")
    return True


def files(v):
    """Through the files: run.load() and the section that is asked for."""
    pars, mesh = build(v)
    d = os.path.join(p11.scratch(), "moving_mesh_transport", "input_scripts")
    os.makedirs(d, exist_ok=True)
    run = mod("solver_functions.run_functions").run()
    names = [v["file"], "decoy"]
    for name in names:
        data = pars if name == v["file"] else {"all": {}}
        with open(os.path.join(d, name + ".yaml"), "w") as f:
            yaml.safe_dump(data, f)
    with open(os.path.join(d, "mesh_parameters.yaml"), "w") as f:
        yaml.safe_dump(mesh, f)
    try:
        for name in v["order"]:
            if name == "decoy":
                run.load("decoy")
        if v["file"] == "transport":
            run.load()
        else:
            run.load(v["file"])
        cls = mod("loading_and_saving.load_parameters").parameter_load_class
        obj = cls(v["section"], run.parameters, run.mesh_parameters)
        compare(obj, expected(v, pars, mesh), "files")
        after = [sorted(os.listdir(d))]
        if after[0] != sorted({n + ".yaml" for n in names}
                              | {"mesh_parameters.yaml"}):
            fail(f"loading left files {after[0]}")
        with open(os.path.join(d, v["file"] + ".yaml")) as f:
            if yaml.safe_load(f) != pars:
                fail("loading changed the input file")
    finally:
        shutil.rmtree(d)
    return True


def refuses(v):
    """Contradictory input is refused."""
    pars, mesh = build(v)
    how = v["how"]
    if how in ("N_spaces", "Ms"):
        pars["all"][how] = pars["all"][how] + [3]
    elif how == "N_angles":
        pars[v["section"]][how] = pars[v["section"]][how] + [3]
    elif how == "geometry":
        pars["all"]["geometry"] = {"slab": True, "sphere": True}
    elif how == "radiative_transfer":
        pars["all"]["radiative_transfer"] = {"none": True, "other": True}
    else:
        i, j = v["two"]
        ks = list(mesh["sigma_func"])
        mesh["sigma_func"] = {k: q in (i, (i + 1 + j) % len(ks))
                              for q, k in enumerate(ks)}
    if v["digits"]:
        for d in (pars["all"], mesh):
            for k, x in d.items():
                if isinstance(x, dict):
                    d[k] = digits(x)
    cls = mod("loading_and_saving.load_parameters").parameter_load_class
    try:
        cls(v["section"], pars, mesh)
    except AssertionError:
        return True
    fail(f"contradictory {how} accepted")


def shipped(v):
    """The transport input shipped with the code names all the code needs."""
    d = os.path.join(REPO, "moving_mesh_transport", "input_scripts")
    with open(os.path.join(d, "transport.yaml")) as f:
        pars = yaml.safe_load(f)
    with open(os.path.join(d, "mesh_parameters.yaml")) as f:
        mesh = yaml.safe_load(f)
    s = pars[v["section"]]
    n = len(s["N_angles"])
    pars["all"]["N_spaces"] = (v["N_spaces"] * 3)[:n]
    pars["all"]["Ms"] = (v["Ms"] * 3)[:n]
    pars["all"]["tfinal"] = v["tfinal"]
    cls = mod("loading_and_saving.load_parameters").parameter_load_class
    o = cls(v["section"], pars, mesh)
    if o.source_strength != s["source_strength"] or o.tfinal != v["tfinal"]:
        fail("shipped input: strength or final time not taken over")
    known = set(lab.opacity_dict(lab.full({})))
    if not known <= set(dict(o.sigma_func)):
        fail(f"shipped opacities {sorted(dict(o.sigma_func))} lack "
             f"{sorted(known - set(dict(o.sigma_func)))}")
    return True


def base():
    n = ints(1, 3)
    lists = dict(N_spaces=st.lists(ints(2, 64), min_size=3, max_size=3),
                 Ms=st.lists(ints(0, 9), min_size=3, max_size=3),
                 N_angles=st.lists(ints(2, 256), min_size=3, max_size=3))
    al = st.fixed_dictionaries(dict(
        problem_name=pick("transport", "su_olson", "su_olson_s2",
                          "rad_transfer_constant_cv"),
        tfinal=number, c_scaling=flag, epsilon_scaling=flag, epsilon=number,
        sigma_t=number, sigma_s=number, t0=number, tnodes=ints(1, 100),
        N_runs=ints(1, 5), rt=pick(5e-12, 1e-6, "1e-7"), at=pick(1e-10, 1e-5),
        mxstp=number, major=pick("cells", "Ms"),
        radiative_transfer=st.fixed_dictionaries({"none": flag}),
        temperature_dependence=st.lists(ints(0, 1), min_size=2, max_size=4),
        e_initial=pick(1e-10, 0.5, 0), weights=pick(
            "gauss_legendre", "gauss_lobatto"), save_solution=flag,
        particle_v=pick("one", "sqrt_3"), edge_v=pick("one", "sqrt_3"),
        cv_const=pick(0.0, 0.03, 1), estimate_wavespeed=flag, thick=flag,
        integrator=pick("DOP853", "BDF", "RK45", "LSODA"),
        geometry=onehot(["slab", "sphere"])))
    kind = st.lists(ints(0, 3), min_size=6, max_size=16)
    sec = st.fixed_dictionaries(dict(
        x0=st.lists(number, min_size=1, max_size=4),
        l=number, sigma=number, source_strength=number, source_type=kind,
        move_type=st.lists(ints(0, 1), min_size=2, max_size=5),
        bench_type=pick("full", "S2"), benchmarking=flag))
    msh = st.fixed_dictionaries(dict(
        find_edges_tol=number, sqrt_t_move_factor=number, save_wave_loc=flag,
        estimate_wavespeed=flag, find_wave_loc=flag, choose_xs=flag,
        pad=number, leader_pad=number, xs_quad=ints(2, 50),
        xs_list=st.lists(number, min_size=1, max_size=6), eval_times=flag,
        eval_array=st.lists(number, min_size=1, max_size=6), finite=flag,
        domain_width=number, boundary_on=st.lists(ints(0, 1), min_size=2,
                                                  max_size=2),
        boundary_source_strength=number, boundary_source=flag,
        sigma_func=onehot(OPAC), Msigma=ints(0, 6), fake_sedov_v0=small))
    return dict(lists, n=n, all=al, sec=sec, mesh=msh, section=pick(*SECTIONS),
                digits=flag)


def fix(v):
    v["all"]["rt"] = float(v["all"]["rt"])
    return v


CHECKS = [
    Check("reads", case(**base()).map(fix), reads, quick=700, thorough=6000),
    Check("files", case(**base(), file=pick("transport", "su_olson", "mine"),
                        order=st.lists(pick("decoy", "none"), max_size=2)
                        ).map(fix), files, quick=160, thorough=1500, jit=10),
    Check("refuses", case(**base(), how=pick(
        "N_spaces", "Ms", "N_angles", "geometry", "radiative_transfer",
        "sigma_func"), two=st.tuples(ints(0, 5), ints(0, 4)).map(list)
        ).map(fix), refuses, quick=200, thorough=2000),
    Check("shipped", case(section=pick(*SECTIONS),
                          N_spaces=st.lists(ints(2, 64), min_size=3,
                                            max_size=3),
                          Ms=st.lists(ints(0, 9), min_size=3, max_size=3),
                          tfinal=num(0.1, 20, 0.1)), shipped, quick=40,
          thorough=200),
]
