"""Benchmark tables: the value at a point is that of the right table."""
import os
import shutil

import h5py
import numpy as np
from scipy.interpolate import CubicSpline

from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rng, st
from ..shim import mod
from . import p11

RULE = "points inside and beyond the table"
ASSUMPTIONS = [
    "Tables start at zero; points are magnitudes of positions, as the solver "
    "asks for them.",
    "No scaled table for t = 31.6228 (the scaling is ignored there).",
]
NAMES = ["plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS",
         "gaussian_source", "gaussian_IC_2D", "line_source",
         "P1_su_olson_rad", "P1_su_olson_mat", "P1_gaussian_rad",
         "P1_gaussian_mat", "P1_gaussian_rad_thick", "P1_gaussian_mat_thick",
         "P1_su_olson_rad_thick", "P1_su_olson_mat_thick"]


def table(seed, n, length):
    r = rng(seed)
    x = np.concatenate([[0.0], np.cumsum(r.uniform(0.3, 1.0, n - 1))])
    return np.array([length * x / x[-1], r.normal(size=n), r.normal(size=n)])


class Bench:
    def __enter__(self):
        self.top = os.path.join(p11.scratch(), "moving_mesh_transport",
                                "benchmarks")
        os.makedirs(self.top, exist_ok=True)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top)


def write(top, tabs):
    with h5py.File(os.path.join(top, "benchmarks.hdf5"), "w") as f:
        for (name, t), tab in tabs.items():
            f.require_group(name).create_dataset(f"t = {float(t)}", data=tab)
    so = {}
    for n, s in (("su_olson_1", 1), ("su_olson_31", 2)):
        so[n] = np.round(rng(s).random((7, 3)), 6)
        np.savetxt(os.path.join(top, n + ".txt"), so[n])
    return so


def bench(v):
    tf = float(v["t"])
    scaled = v["scaled"] and tf != 31.6228
    used = tf * v["c"] if scaled else tf
    src = NAMES[v["source"]]
    tabs = {(src, used): table(v["seed"], v["n"], v["length"])}
    k = 0
    for other in v["others"]:
        key = (NAMES[other[0]], float(other[1]))
        if key not in tabs:
            k += 1
            tabs[key] = table(v["seed"] + k, v["n"] + k % 3, v["length"] * 1.3)
    if scaled and (src, tf) not in tabs:
        tabs[(src, tf)] = table(v["seed"] + 50, v["n"], v["length"])
    xs = np.array([abs(x) * 0.01 * v["length"] for x in v["xs"]])
    xs = np.sort(xs)
    if v["shape"] == "even":
        xs = np.concatenate([xs[::-1], xs])
    elif v["shape"] == "odd":
        xs = np.concatenate([xs[::-1], xs[1:]])
    elif v["shape"] == "any":
        xs = rng(v["seed"] + 9).permutation(xs)
    types = [int(i == v["source"]) for i in range(16)]
    with Bench() as b:
        so = write(b.top, tabs)
        cls = mod("loading_and_saving.load_bench").load_bench
        o = cls(np.array(types) if v["source"] % 2 else types, v["t"],
                np.array([0.5]), v["c"], scaled)
        keep = xs.copy()
        phi, unc, e = o(xs)
        if not np.array_equal(xs, keep):
            fail("evaluating changed the points")
        again = o(xs)
        tab = tabs[(src, used)]
        for got, second, row, what in ((phi, again[0], 1, "solution"),
                                       (unc, again[1], 2, "uncollided")):
            ref = CubicSpline(tab[0], tab[row])
            want = np.where(xs <= tab[0][-1], ref(xs), 0.0)
            close(got, want, f"benchmark {what}", 1e-9, 1e-9)
            close(second, want, f"benchmark {what} again", 1e-9, 1e-9)
        if used == 1.0:
            close(e, so["su_olson_1"], "table of the coupled problem", 0, 0)
        elif used == 31.6228:
            close(e, so["su_olson_31"], "table of the coupled problem", 0, 0)
        elif np.ndim(e) != 0 or e != 0:
            fail("coupled table for a time that has none")
        with h5py.File(os.path.join(b.top, "benchmarks.hdf5"), "r") as f:
            for (name, t), want in tabs.items():
                close(f[name][f"t = {t}"][:], want, "table on disk", 0, 0)
    return bool(np.any(xs <= tab[0][-1]) and np.any(xs > tab[0][-1]))


def near(t, d):
    """A time close to t that a careless lookup might take for it."""
    return float({"round": np.round(t), "floor": np.floor(t),
                  "ceil": np.ceil(t), "one": np.round(t, 1),
                  "ulp": np.nextafter(t, 99), "up": t + 0.01,
                  "down": t - 0.01, "next": t + 1, "last": t - 1,
                  "half": t / 2, "twice": 2 * t}[d])


def missing(v):
    """No table for the time or source that is asked for: an error."""
    with Bench() as b:
        tabs = {(NAMES[o[0]], float(o[1])): table(v["seed"], 5, 1.0)
                for o in v["others"]}
        src = NAMES[v["source"]]
        t = float(v["t"])
        for d in v["near"]:            # tables of the same source nearby
            tabs[src, near(t, d)] = table(v["seed"] + 3, 6, 1.0)
        tabs.pop((src, t), None)
        write(b.top, tabs)
        types = [int(i == v["source"]) for i in range(16)]
        cls = mod("loading_and_saving.load_bench").load_bench
        try:
            cls(types, v["t"], np.array([0.5]), 1.0, False)
        except KeyError:
            return bool(tabs)
        fail(f"a table for {src} at t={v['t']} was found among {list(tabs)}")


def coupled(v):
    with Bench() as b:
        so = write(b.top, {})
        cls = mod("loading_and_saving.load_bench_su_olson").load_bench_su_olson
        o = cls(float(v["t"]), v["x0"])
        got = o()
        if float(v["t"]) == 1.0:
            for i in range(3):
                close(got[i], so["su_olson_1"][:, i], f"column {i}", 0, 0)
            return True
        if got is not None:
            fail("a table for a time that has none")
    return False


def selectors(v):
    """Names of sources and the pair of tables of a coupled problem."""
    i = v["source"]
    names = list(NAMES)
    names[2], names[5] = "square_s", "gaussian_s"
    arr = mod("misc_functions").source_name_finder(names[i])
    close(arr, [float(i == j) for j in range(16)], "source array", 0, 0)
    try:
        mod("misc_functions").source_name_finder(names[i] + "x")
        fail("an unknown source has an array")
    except AssertionError:
        pass
    f = mod("solver_functions.main_functions").s2_source_type_selector
    types = [0] * 15
    gauss, thick = v["gauss"], v["thick"]
    types[5 if gauss else 2] = 1
    rad, mat = f((300 if thick else 0.5) if gauss else 0,
                 (400 if thick else 0.5) if not gauss else 2.5, 0, types,
                 "gauss_legendre")
    base = {(0, 0): 8, (1, 0): 10, (1, 1): 12, (0, 1): 14}[gauss, thick]
    close(rad, [float(j == base) for j in range(16)], "radiation table", 0, 0)
    close(mat, [float(j == base + 1) for j in range(16)], "material table", 0,
          0)
    return True


times = pick(1.0, 1, 5.0, 10.0, 31.6228, 0.5, 2.5, 31.6)
others = st.lists(st.tuples(ints(0, 15), times).map(list), min_size=1,
                  max_size=5)
odd_times = st.one_of(times, num(0.2, 40, 0.05))
CHECKS = [
    Check("bench", case(source=ints(0, 15), t=times, c=pick(1.0, 0.5, 0.9, 2.0),
                        scaled=st.booleans(), seed=ints(0, 10 ** 6),
                        n=ints(5, 40), length=num(0.5, 30, 0.1), others=others,
                        shape=pick("up", "even", "odd", "any"),
                        xs=st.lists(ints(0, 140), min_size=2, max_size=12)),
          bench, quick=700, thorough=8000, jit=20),
    Check("missing", case(source=ints(0, 15), t=odd_times,
                          seed=ints(0, 10 ** 6),
                          near=st.lists(pick("round", "floor", "ceil", "one",
                                             "ulp", "up", "down", "next",
                                             "last", "half", "twice"),
                                        max_size=6),
                          others=others), missing, quick=400, thorough=3000,
          jit=10),
    Check("coupled", case(t=times, x0=num(0.1, 1)), coupled, quick=80,
          thorough=400, jit=8),
    Check("selectors", case(source=ints(0, 15), gauss=ints(0, 1),
                            thick=ints(0, 1)), selectors, quick=80,
          thorough=400, jit=8),
]
