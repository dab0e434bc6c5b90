"""The driver: input files in, results of the right runs out."""
import os
import shutil

import numpy as np
import yaml
from scipy.interpolate import CubicSpline

from .. import gen, lab, meshes  # noqa: F401
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, st
from ..shim import mod
from . import p09, p11, p21, p22

QUICK_BUDGET = 80
RULE = "two or more runs with different cells, orders or directions"
ASSUMPTIONS = [
    "solve() is judged by P11; here its results must reach the user.",
    "Meshes as in P11.  Uncoupled problems (the coupled right-hand side is "
    "not in use).",
    "Saved results of problems without a source type of their own carry the "
    "name of the plane pulse (known finding).",
]
# kind -> method of run(), name under which results are saved
METHOD = {"plane": "plane_IC", "thick_plane": "plane_IC", "point": "plane_IC",
          "square": "square_IC", "shell": "square_IC",
          "thick_square": "square_IC", "square_source": "square_source",
          "thick_square_source": "square_source", "gaussian": "gaussian_IC",
          "thick_gaussian": "gaussian_IC", "noniso": "gaussian_IC",
          "gaussian_source": "gaussian_source",
          "thick_gaussian_source": "gaussian_source", "mms": "MMS",
          "boundary": "boundary_source"}
SAVED = {"plane_IC": "plane_IC", "square_IC": "square_IC",
         "square_source": "square_s", "gaussian_IC": "gaussian_IC",
         "gaussian_source": "gaussian_s", "MMS": "MMS",
         "boundary_source": "plane_IC"}
KINDS = [k for k in p11.SLAB + p11.BALL if k in METHOD]


def problems(d):
    """The parameters of every count of one driver run."""
    k = d["kind"]
    if meshes.KINDS[k][1] == "sphere":
        d = dict(d, opacity="constant")
    base = p11.par(d)
    if not METHOD[k].startswith("gaussian"):
        base["sigma"] = 0.0
    rule = meshes.KINDS[k][2]
    Ns = [meshes.cells(rule, n) for n in d["Ns"][:d["count"]]]
    Ms, As = d["Ms_"][:d["count"]], d["As"][:d["count"]]
    xs = [base["x0"] * f for f in d["xf"][:d["count"]]]
    if base["sigma_func"] != "constant":        # as many modes as integrated
        base["Msigma"] = min(base["Msigma"], 2 * min(Ms) + 1)
    major = d["major"] if d["count"] > 1 else "cells"
    own = base["source"][3] or base["source"][4] == 1
    if not own and k in ("boundary", "square_source", "thick_square_source"):
        xs = xs[:1]                 # their plots expect one width
    out = []
    for i in range(d["count"]):
        out.append(dict(base, N_space=Ns[i] if major == "cells" else Ns[1],
                        M=Ms[i], N_ang=As[i], x0=xs[i] if own else xs[0]))
    files = dict(N_spaces=Ns, Ms=Ms, N_angles=As, x0=xs, major=major)
    return base, out, files


def inputs(d, base, files, opts):
    """The two input files of a driver run."""
    src = list(base["source"])
    last = src.pop() if d["kind"] == "noniso" else 0
    src += [0] * (15 - len(src)) + [last]
    geom = base["geom"]
    al = dict(problem_name="transport", tfinal=base["tfinal"],
              c_scaling=opts.get("scaled", False), epsilon_scaling=False,
              epsilon=base["epsilon"], sigma_t=base["sigma_t"],
              sigma_s=base["sigma_s"], t0=base["t0"],
              N_spaces=files["N_spaces"], tnodes=base["t_nodes"],
              Ms=files["Ms"], N_runs=opts.get("runs", 1), rt=1e-5, at=1e-7,
              mxstp=0.1 * base["tfinal"], major=files["major"],
              radiative_transfer={"none": True},
              temperature_dependence=[0, 0], e_initial=base["e_init"],
              weights=base["weights"], save_solution=opts["save"],
              particle_v="one", cv_const=base["cv0"],
              edge_v="one" if base["edge_v"] == 1 else "sqrt_3",
              estimate_wavespeed=False, thick=bool(base["thick"]),
              integrator=d["method"],
              geometry={"slab": geom == "slab", "sphere": geom == "sphere"})
    sec = dict(x0=files["x0"], l=base["l"], sigma=base["sigma"],
               source_strength=base["source_strength"], source_type=src,
               N_angles=files["N_angles"], move_type=list(base["move_type"]),
               bench_type=opts.get("bench_type", "full"),
               benchmarking=opts.get("bench", False))
    ev = opts.get("evals") or []
    mesh = dict(find_edges_tol=1e9, sqrt_t_move_factor=base["move_factor"],
                save_wave_loc=False, estimate_wavespeed=False,
                find_wave_loc=False, choose_xs=bool(opts.get("pts")),
                pad=base["pad"], leader_pad=base["leader_pad"], xs_quad=25,
                xs_list=opts.get("pts") or [0.0], eval_times=bool(ev),
                eval_array=ev or [1.0], finite=bool(base["finite_domain"]),
                domain_width=base["domain_width"],
                boundary_on=list(base["boundary_on"]),
                boundary_source=bool(base["boundary_source"]),
                boundary_source_strength=base["boundary_source_strength"],
                sigma_func={o: o == base["sigma_func"]
                            for o in lab.OPACITIES + ("linear",)},
                Msigma=base["Msigma"], fake_sedov_v0=base["fake_sedov_v0"])
    decoy = dict(sec, x0=[9.0] * 2, source_strength=99.0, sigma=88.0,
                 source_type=[0, 1] + [0] * 14)
    pars = {"all": al}
    for s in set(METHOD.values()) | {"dipole", "self_sim_plane"}:
        pars[s] = dict(sec) if s == METHOD[d["kind"]] else dict(decoy)
    return plain(pars), plain(mesh)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


class Input:
    def __enter__(self):
        self.top = os.path.join(p11.scratch(), "moving_mesh_transport",
                                "input_scripts")
        os.makedirs(self.top, exist_ok=True)
        return self

    def write(self, name, pars, mesh):
        for n, x in ((name, pars), ("mesh_parameters", mesh)):
            with open(os.path.join(self.top, n + ".yaml"), "w") as f:
                yaml.safe_dump(x, f)

    def __exit__(self, *a):
        shutil.rmtree(self.top)
        mod("solver").plt.close("all")


def equal(got, want, what, rtol=1e-11):
    want = np.asarray(want, float)
    close(got, want, what, rtol, 1e-12 * max(1e-300, np.max(np.abs(want))))


def direct(p, d, unc, mov, opts):
    """The same run through solve()."""
    return lab.solve(dict(p, uncollided=bool(unc), moving=bool(mov)),
                     rt=1e-5, at=1e-7, mxstp=0.1 * p["tfinal"],
                     integrator=d["method"],
                     xs=np.array(opts["pts"]) if opts.get("pts") else None,
                     eval_array=opts.get("evals") or None)


def stored(p, d, unc, mov, t, x0):
    cls = mod("loading_and_saving.load_solution").load_sol
    o = cls("transport", SAVED[METHOD[d["kind"]]], "rad",
            p["sigma_s"] / p["sigma_t"], False, 0.0, "run_data.hdf5")
    key = p["sigma"] if p["sigma"] != 0 else x0
    o.call_sol(t, p["M"], key, p["N_space"], "rad", bool(unc), bool(mov), 1.0)
    return o


def saved(ps, rs, d, unc, mov, opts):
    """What is on disk after a run: of every mesh, the last run on it."""
    last = {}
    for p, r in zip(ps, rs):
        last[p["N_space"]] = (p, r)
    for p, r in last.values():
        w = f"saved, {p['N_space']} cells"
        if opts.get("evals"):
            for i, t in enumerate(opts["evals"]):
                o = stored(p, d, unc, mov, t, ps[0]["x0"])
                equal(o.xs, r["xs"][i], f"{w}, t={t}: points", 1e-6)
                equal(o.phi, r["phi"][i], f"{w}, t={t}: flux", 1e-6)
                equal(o.psi, r["psi"][i], f"{w}, t={t}: angular flux")
            continue
        o = stored(p, d, unc, mov, p["tfinal"], ps[0]["x0"])
        equal(o.xs, r["xs"], w + ": points", 1e-6)
        equal(o.phi, r["phi"], w + ": flux", 1e-6)
        equal(o.psi, r["psi"], w + ": angular flux")
        equal(o.mus, r["mus"], w + ": directions")
        equal(o.ws, r["ws"], w + ": weights")
        equal(o.edges, r["edges"], w + ": edges")
        equal(o.coeff_mat, r["sol"], w + ": coefficients")


def options(v, d, base):
    opts = dict(save=v["save"], evals=[], pts=[], runs=v["runs"])
    if v["evals"]:
        opts["evals"] = sorted({round(f * base["tfinal"], 9)
                                for f in v["evals"]})
    if v["pts"] and d["kind"] != "boundary":
        top = base["x0"] + base["tfinal"]
        lo = 0.0 if base["geom"] == "sphere" else -1.0
        opts["pts"] = sorted({round(top * (lo + (1 - lo) * x), 9)
                              for x in v["pts"]})
    if d["kind"] == "boundary" and base["sigma_func"] == "fake_sedov":
        opts["evals"] = opts["evals"] or [base["tfinal"]]
    elif d["kind"] == "boundary":
        opts["evals"] = []
    return opts


def session(v):
    """A session: inputs written, loaded and run one after the other."""
    several = False
    with p21.Disk(), Input() as inp:
        runner = mod("solver_functions.run_functions").run()
        for j, d in enumerate(v["problems"]):
            base, ps, files = problems(d)
            opts = options(v, d, base)
            pars, mesh = inputs(d, base, files, opts)
            inp.write(v["file"], pars, mesh)
            runner.load(v["file"])
            unc, mov = base["uncollided"], base["moving"]
            rs = [direct(p, d, unc, mov, opts) for p in ps]
            if not all(np.all(np.isfinite(r["phi"])) for r in rs):
                return False
            getattr(runner, METHOD[d["kind"]])(bool(unc), bool(mov))
            r, w = rs[-1], f"problem {j}"
            for n in ("xs", "phi", "psi", "ws", "mus", "exit_dist",
                      "exit_phi"):
                equal(getattr(runner, n), r[n], f"{w}: {n}")
            equal(runner.x0, files["x0"], w + ": x0")
            equal([runner.tfinal, runner.t0_source, runner.v0],
                  [base["tfinal"], base["t0"], base["fake_sedov_v0"]],
                  w + ": times")
            equal(runner.eval_array, opts["evals"] or [1.0], w + ": times")
            if v["save"]:
                saved(ps, rs, d, unc, mov, opts)
            several = several or (len(ps) > 1 and len({
                (p["N_space"], p["M"], p["N_ang"]) for p in ps}) > 1)
    return several or len(v["problems"]) > 1


def variants(v):
    """All=True: the four combinations, each saved under its own name."""
    d = v["problem"]
    base, ps, files = problems(dict(d, unc=1))
    opts = dict(save=True)
    with p21.Disk(), Input() as inp:
        inp.write("transport", *inputs(d, base, files, opts))
        runner = mod("solver_functions.run_functions").run()
        runner.load()
        rs = {}
        for unc in (1, 0):
            for mov in (1, 0):
                rs[unc, mov] = [direct(p, d, unc, mov, opts) for p in ps]
                if not all(np.all(np.isfinite(r["phi"]))
                           for r in rs[unc, mov]):
                    return False
        getattr(runner, METHOD[d["kind"]])(All=True)
        for (unc, mov), r in rs.items():
            saved(ps, r, d, unc, mov, opts)
    return True


def errors(v):
    """The error against the benchmark table, for every mesh of the study."""
    d = v["problem"]
    base, ps, files = problems(d)
    s2 = bool(v["s2"]) and METHOD[d["kind"]] in ("square_source",
                                                 "gaussian_source")
    if s2:
        if METHOD[d["kind"]] == "gaussian_source":
            base["sigma"] = 0.5
        else:
            files["x0"][0] = 0.5
            ps = [dict(p, x0=0.5) for p in ps]
        ps = [dict(p, sigma=base["sigma"]) for p in ps]
    opts = dict(save=v["save"], bench=True, scaled=bool(v["scaled"]),
                bench_type="S2" if s2 else "full", runs=v["runs"])
    pars, mesh = inputs(d, base, files, opts)
    c, t = base["sigma_s"] / base["sigma_t"], base["tfinal"]
    name = p22.NAMES[list(base["source"]).index(1)]
    if s2:
        name = {"square_source": "P1_su_olson_rad",
                "gaussian_source": "P1_gaussian_rad"}[METHOD[d["kind"]]]
    used = t * c if v["scaled"] else t
    far = base["x0"] + 2 * t
    tab = p22.table(v["seed"], 30, v["reach"] * far)
    with p21.Disk(), p22.Bench() as bench:
        tabs = {(n, x): p22.table(v["seed"] + 1 + i, 10, far)
                for i, n in enumerate(p22.NAMES) for x in {t, used}}
        tabs[(name, used)] = tab
        p22.write(bench.top, tabs)
        rs = [direct(p, d, base["uncollided"], base["moving"], opts)
              for p in ps]
        if not all(np.all(np.isfinite(r["phi"])) for r in rs):
            return False
        s = mod("solver").main_class(METHOD[d["kind"]], pars, mesh)
        s.main(bool(base["uncollided"]), bool(base["moving"]))
        mod("solver").plt.close("all")
        want = []
        f = CubicSpline(tab[0], tab[1])
        k = c if v["scaled"] else 1.0
        for r in rs:
            x = np.abs(np.array(r["xs"])) * k
            b = np.where(x <= tab[0][-1], f(x), 0.0)
            if v["scaled"]:
                b = c * np.exp(-(1 - c) * t) * b
            want.append(np.sqrt(np.mean((np.array(r["phi"]) - b) ** 2)))
        close(s.RMS_list, want, "errors of the study", 1e-7, 1e-10)
        if len(s.r_times) != len(ps) or not np.all(np.array(s.r_times) > 0):
            fail(f"run times {s.r_times}")
    return len(ps) > 1


def order(v):
    """Helpers of a convergence study."""
    m = mod("solver_classes.functions")
    e1, n1 = v["e1"], v["n1"]
    n2 = n1 * v["ratio"]
    e2 = e1 * v["ratio"] ** -v["p"]
    close([m.convergence(e1, n1, e2, n2)], [v["p"]], "order of convergence",
          1e-9, 1e-9)
    a = np.array(v["a"], float)
    b = a[::-1] * 0.5
    close([mod("solver_functions.run_functions").RMSE(a, b)],
          [np.sqrt(np.sum((a - b) ** 2) / a.size)], "RMSE", 1e-12, 1e-12)
    return True


def strat(kinds):
    return p11.strat(kinds).flatmap(lambda d: case(
        d=st.just(d), count=pick(2, 1, 2), major=pick("cells", "cells", "Ms"),
        Ns=st.lists(pick(4, 4, 8), min_size=2, max_size=2),
        Ms_=st.lists(pick(0, 1, 2), min_size=2, max_size=2),
        As=st.lists(pick(2, 4), min_size=2, max_size=2),
        xf=st.lists(pick(1.0, 1.25, 1.5), min_size=2, max_size=2))).map(
            lambda v: dict(v["d"], **{k: v[k] for k in v if k != "d"},
                           tf=min(v["d"]["tf"], 1.0),
                           ev=1.0 if v["d"]["ev"] == 1 else 0.5773502691896258)
            ).map(lambda v: {k: (1 / np.sqrt(3) if k == "ev" and x != 1 else x)
                             for k, x in v.items()})


SPLIT = [k for k in KINDS if k in p09.SPLIT and k != "boundary"]
CHECKS = [
    Check("session", case(problems=st.lists(strat(KINDS), min_size=1,
                                            max_size=2), save=st.booleans(),
                          runs=pick(1, 1, 2), file=pick("transport", "mine"),
                          evals=st.one_of(st.just([]), st.lists(
                              num(0.2, 1, 0.05), min_size=1, max_size=2)),
                          pts=st.one_of(st.just([]), st.lists(
                              num(0, 1), min_size=1, max_size=4))),
          session, quick=120, thorough=1500, jit=12),
    Check("variants", case(problem=strat(SPLIT)), variants, quick=24,
          thorough=300, jit=4),
    Check("errors", case(problem=strat([k for k in KINDS if METHOD[k]
                                        != "boundary_source"]),
                         save=st.booleans(), scaled=ints(0, 1), s2=ints(0, 1),
                         runs=pick(1, 1, 2), seed=ints(0, 10 ** 6),
                         reach=num(0.3, 1.5, 0.1)), errors, quick=60,
          thorough=700, jit=8),
    Check("order", case(e1=num(0.001, 1, 0.001), n1=ints(1, 40),
                        ratio=pick(2.0, 1.5, 3.0), p=num(-1, 8, 0.1),
                        a=st.lists(num(-5, 5, 0.1), min_size=1, max_size=6)),
          order, quick=100, thorough=1000, jit=20),
]
