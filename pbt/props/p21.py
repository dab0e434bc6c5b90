"""Results on disk: what is saved is what is loaded."""
import os
import shutil

import h5py
import numpy as np

from ..core import Check
from ..gen import case, fail, ints, num, pick, rng, st
from ..shim import mod
from . import p11

RULE = "a history that loads something saved earlier, two or more saves"
ASSUMPTIONS = [
    "h5py is trusted to store arrays.",
    "Points, flux and energy are stored in single precision.",
    "The data file exists and has the name the loader is given (the defaults "
    "of saver and loader differ); wave positions likewise.",
    "Angular flux and directions are compared only if no other problem was "
    "saved since under the same parameters (known finding).",
]
# name of the problem when saving / when loading its solution
PROBLEMS = [("transport", "transport"),
            ("rad_transfer_constant_cv", "rad_transfer_const_cv"),
            ("rad_transfer_constant_cv_s2", "rad_transfer_const_cv_s2"),
            ("rad_transfer_constant_cv_thick", "rad_transfer_const_cv_thick"),
            ("rad_transfer_constant_cv_thick_s2",
             "rad_transfer_const_cv_thick_s2"),
            ("su_olson", "su_olson"), ("su_olson_s2", "su_olson_s2"),
            ("su_olson_thick", "su_olson_thick"),
            ("su_olson_thick_s2", "su_olson_thick_s2")]
SOURCES = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS",
           "gaussian_s"]
CV = {"rad_transfer_constant_cv", "rad_transfer_constant_cv_s2",
      "rad_transfer_constant_cv_thick", "rad_transfer_constant_cv_thick_s2"}


class Disk:
    def __enter__(self):
        self.top = os.path.join(p11.scratch(), "moving_mesh_transport",
                                "local_run_data")
        os.makedirs(self.top, exist_ok=True)
        for n in ("run_data.hdf5", "wavepoints_crc.hdf5",
                  "run_data_transport_RMS.h5", "run_data_su_olson_RMS.h5"):
            h5py.File(os.path.join(self.top, n), "w").close()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top)

    def path(self, n):
        return os.path.join(self.top, n)


def saver(k, s):
    """save_output for the parameters k of the history."""
    types = [int(i == s["source"]) for i in range(6)] + [0] * 9
    pr = PROBLEMS[k["problem"]][0]
    cls = mod("loading_and_saving.save_output").save_output
    return cls(float(k["t"]), s["N_spaces"], s["Ms"], types, bool(k["mov"]),
               bool(k["unc"]), s.get("major", "cells"), 0, [0, 0],
               float(k["c"]), s.get("sigma", 0.0), [float(k["x0"])],
               k["cv"], pr, s["N_angles"], float(k["eps"]))


def key(k):
    pr = PROBLEMS[k["problem"]][0]
    return (pr, k["cv"] if pr in CV else None, k["source"], k["unc"],
            k["mov"], k["N"], k["t"], k["c"], k["x0"], k["eps"])


def arrays(s, k):
    r = rng(s["seed"])
    n, na, M = s["n"], s["na"], s["M"]
    coup = PROBLEMS[k["problem"]][0] != "transport"
    d = dict(xs=np.sort(r.normal(size=n)), phi=r.normal(size=n),
             e=r.normal(size=n), psi=r.normal(size=(na, n)),
             coef=r.normal(size=(na + coup, k["N"], M + 1)),
             edges=np.sort(r.normal(size=k["N"] + 1)), ws=r.random(na),
             mus=np.sort(r.normal(size=na)))
    return d


def single(got, want, what):
    want = np.asarray(want)
    if np.shape(got) != want.shape or not np.array_equal(
            np.asarray(got, np.float32), want.astype(np.float32)):
        fail(f"{what}: {np.ravel(got)[:4]} instead of {want.ravel()[:4]}")


def exact(got, want, what):
    if np.shape(got) != np.shape(want) or not np.array_equal(got, want):
        fail(f"{what}: shape {np.shape(got)} {np.ravel(got)[:4]} instead of "
             f"{np.shape(want)} {np.ravel(want)[:4]}")


def load(k, mode):
    """(loader or None if there is nothing under these parameters)"""
    pr = PROBLEMS[k["problem"]]
    coup = pr[0] != "transport"
    cls = mod("loading_and_saving.load_solution").load_sol
    o = cls(pr[1], SOURCES[k["source"]], "transfer" if coup else "rad",
            float(k["c"]), False, k["cv"], "run_data.hdf5")
    try:
        o.call_sol(float(k["t"]), 3, float(k["x0"]), k["N"], mode,
                   bool(k["unc"]), bool(k["mov"]), float(k["eps"]))
    except (KeyError, ValueError):
        return None
    return o


def judge(o, k, want, psi_ok, mode):
    single(o.xs, want["xs"], "points")
    single(o.phi, want["phi"], "scalar flux")
    coup = PROBLEMS[k["problem"]][0] != "transport"
    single(o.e, want["e"] if coup else 0 * want["e"], "energy")
    exact(o.ws, want["ws"], "weights")
    exact(o.edges, want["edges"], "edges")
    c = want["coef"]
    if coup:
        c = c[-1] if mode == "mat" else c[:-1]
    exact(o.coeff_mat, c, "coefficients")
    if psi_ok:
        exact(o.psi, want["psi"], "angular flux")
        exact(o.mus, want["mus"], "directions")


def history(v):
    store, last = {}, {}
    seen = saves = 0
    with Disk():
        for op in v["ops"]:
            k = v["keys"][op["key"] % len(v["keys"])]
            shared = key(k)[2:]
            if op["op"] == "save":
                a = arrays(op, k)
                s = saver(k, dict(source=k["source"], N_spaces=[k["N"]],
                                  Ms=[op["M"]], N_angles=[op["na"]]))
                keep = {n: x.copy() for n, x in a.items()}
                s.save_solution(a["xs"], a["phi"], a["e"], a["coef"],
                                a["edges"], float(k["x0"]), a["ws"], k["N"],
                                op["na"] == 2, a["psi"], float(k["eps"]),
                                a["mus"])
                for n in a:
                    exact(a[n], keep[n], "saving changed " + n)
                store[key(k)] = a
                last[shared] = key(k)
                saves += 1
            else:
                o = load(k, op["mode"])
                if key(k) not in store:
                    if o is not None:
                        fail(f"a result nobody saved was loaded: {key(k)}")
                else:
                    if o is None:
                        fail(f"saved result not found: {key(k)}")
                    judge(o, k, store[key(k)], last[shared] == key(k),
                          op["mode"])
                    seen += 1
        for k in v["keys"]:
            if key(k) in store:
                o = load(k, "rad")
                if o is None:
                    fail(f"saved result lost: {key(k)}")
                judge(o, k, store[key(k)], last[key(k)[2:]] == key(k), "rad")
                seen += 1
    return seen > 0 and saves > 1


def waves(v):
    """Wave positions."""
    store = {}
    ok = ["su_olson_thick", "su_olson_thick_s2",
          "rad_transfer_constant_cv_thick",
          "rad_transfer_constant_cv_thick_s2", "transport", "su_olson"]
    seen = 0
    cls = mod("loading_and_saving.load_solution").load_sol
    names = [p[0] for p in PROBLEMS]
    with Disk() as disk:
        for op in v["ops"] + [dict(op="load", key=i)
                              for i in range(len(v["keys"]))]:
            k = dict(v["keys"][op["key"] % len(v["keys"])])
            k["problem"] = names.index(ok[k["problem"] % len(ok)])
            pr = names[k["problem"]]
            me = (pr, k["cv"] if pr in CV else None, k["source"], k["t"])
            if op["op"] == "save":
                r = rng(op["seed"])
                a = [r.normal(size=op["n"]) for _ in range(4)]
                saver(k, dict(source=k["source"], N_spaces=[4], Ms=[1],
                              N_angles=[2])).save_wave_loc(*a)
                store[me] = a
                continue
            shutil.copy(disk.path("wavepoints_crc.hdf5"),
                        disk.path("wavepoints.h5"))
            o = cls(pr, SOURCES[k["source"]], "transfer", float(k["c"]), False,
                    k["cv"])
            try:
                o.call_wavepoints(float(k["t"]))
                got = [o.tpnts, o.left, o.right, o.T_wave]
            except KeyError:
                got = None
            if me in store:
                if got is None:
                    fail(f"wave positions not found: {me}")
                for g, w, n in zip(got, store[me], (
                        "times", "left", "right", "temperature wave")):
                    exact(g, w, "wave " + n)
                seen += 1
            elif got is not None:
                exact(got[0], [float(k["t"])], "no wave saved: times")
                for g in got[1:]:
                    exact(g, [0], "no wave saved")
    return seen > 0


# studies of these times are kept
TIMES = (1.0, 5.0, 10.0, 1.25, 0.8333333333333334)


def errors(v):
    """Error tables of a convergence study."""
    store = {}
    with Disk() as disk:
        for s in v["runs"]:
            n = s["n"]
            k = dict(problem=0 if s["transport"] else 5, t=s["t"], c=1.0,
                     x0=s["x0"], cv=0.0, eps=1.0, mov=s["mov"], unc=s["unc"])
            r = rng(s["seed"])
            q = dict(source=s["source"], N_spaces=r.integers(2, 64, n),
                     Ms=np.full(n, s["M"]) if s["major"] == "cells" else
                     r.integers(0, 9, n), N_angles=r.integers(2, 256, n),
                     major=s["major"])
            rms, en, rt = r.random(n), r.random(n), r.random(n)
            o = saver(k, q)
            if s["s2"]:
                o.save_RMS_P1_su_olson(rms, en, q["N_angles"], rt, s["ang"])
            else:
                o.save_RMS(rms, en, q["N_angles"], rt)
            t = float(s["t"])
            if not s["s2"] and t not in TIMES:
                continue
            name = SOURCES[s["source"]]
            if s["s2"] and s["x0"] == 400:
                name = "su_olson_thick"
            ts = str(int(t)) if t == int(t) else str(t)
            cells = s["major"] == "cells"
            where = f"{name}/t={ts}/RMS" + (f"/S{s['ang']}" if s["s2"] else "")
            where += "/" + ("" if cells else "Ms_")
            where += "uncollided_" if s["unc"] else "no_uncollided_"
            where += "moving" if s["mov"] else "static"
            if cells:
                where += f"_M_{int(q['Ms'][0])}"
            rows = [q["N_spaces"], rms, q["N_angles"], rt, q["Ms"], en]
            if not cells:
                rows[0], rows[4] = rows[4], rows[0]
            store[(s["transport"], where)] = np.array(rows, float)
        found = {}
        for tr, n in ((True, "transport"), (False, "su_olson")):
            with h5py.File(disk.path(f"run_data_{n}_RMS.h5"), "r") as f:
                f.visititems(lambda p, o, tr=tr: found.__setitem__(
                    (tr, p), o[:]) if isinstance(o, h5py.Dataset) else None)
    if set(found) != set(store):
        fail(f"tables {sorted(set(found) - set(store))} not expected, "
             f"{sorted(set(store) - set(found))} missing")
    for w in store:
        single(found[w], store[w], f"error table {w}")
    return len(store) > 0


KEY = st.fixed_dictionaries(dict(
    problem=ints(0, 8), source=ints(0, 5), unc=ints(0, 1), mov=ints(0, 1),
    N=pick(2, 4, 16), t=pick(1.0, 1, 0.5, 31.6228, 10.0),
    c=pick(1.0, 0.0, 0.5, 1.5), x0=pick(0.5, 300.0, 400.0, 0.05),
    cv=pick(0.0, 0.03, 1.0), eps=pick(1.0, 1.0, 0.5)))


def similar(ks):
    """Keys that differ from the first in one entry each, or not at all."""
    out = [ks[0]]
    for i, k in enumerate(ks[1:]):
        f = sorted(k)[(i * 7 + k["N"] + k["source"]) % len(k)]
        out.append(dict(ks[0], **{f: k[f]}))
    return out


OPS = st.lists(st.one_of(
    st.fixed_dictionaries(dict(op=st.just("save"), key=ints(0, 5),
                               seed=ints(0, 10 ** 6), n=ints(1, 9),
                               na=ints(2, 5), M=ints(0, 3))),
    st.fixed_dictionaries(dict(op=st.just("load"), key=ints(0, 5),
                               mode=pick("rad", "mat")))),
    min_size=2, max_size=12)
KEYS = st.lists(KEY, min_size=2, max_size=6).map(similar)
RUN = st.fixed_dictionaries(dict(
    n=ints(1, 5), transport=st.booleans(), source=ints(0, 5),
    t=pick(1.0, 5.0, 10.0, 1.25, 0.8333333333333334, 3.0, 31.6228),
    x0=pick(0.5, 400.0), mov=st.booleans(), unc=st.booleans(),
    major=pick("cells", "Ms"), M=ints(0, 9), seed=ints(0, 10 ** 6),
    s2=st.booleans(), ang=pick(2, 8)))


CHECKS = [
    Check("history", case(keys=KEYS, ops=OPS), history, quick=500,
          thorough=6000, jit=20),
    Check("waves", case(keys=KEYS, ops=OPS), waves, quick=300, thorough=3000,
          jit=20),
    Check("errors", case(runs=st.lists(RUN, min_size=1, max_size=6)), errors,
          quick=300, thorough=3000, jit=20),
]
