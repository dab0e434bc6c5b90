"""Plots: the numbers that are drawn are the numbers that were saved."""
import math
import os
import shutil

import h5py
import numpy as np
from scipy.interpolate import CubicSpline

from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rng, st
from ..shim import mod
from . import p11, p21, p22

QUICK_BUDGET = 60
RULE = "a table or a curve that is there; two studies or more"
ASSUMPTIONS = [
    "The table of a study lies in the folder the plots read from (saver and "
    "plots use different folders; the files are copied over).",
    "Whole times are asked for as integers, as the names of tables have them.",
    "Numbers are stored in single precision; zoom, colours of single figures "
    "and the extent of cuts (leading or trailing points) are free.",
    "What is drawn is read back from the figure (drawing backend Agg); files "
    "of figures are recorded, not written.",
]
# what the plots call it: how it is saved (source, strength, x0, directions)
STUDIES = {
    "plane_IC": (0,), "square_IC": (1,), "square_s": (2,),
    "gaussian_IC": (3,), "MMS": (4,), "gaussian_s": (5,),
    "su_olson": (2, 1.0, 0.5, None), "su_olson_energy": (2, 1.0, 0.5, None),
    "su_olson_s2": (2, 1.0, 0.5, 2), "su_olson_energy_s2": (2, 1.0, 0.5, 2),
    "gaussian_s2": (5, 1.0, 0.5, 2), "gaussian_energy_s2": (5, 1.0, 0.5, 2),
    "gaussian_s_thick_s2": (5, 300.0, 0.5, 2),
    "gaussian_s_thick_s2_energy": (5, 300.0, 0.5, 2),
    "gaussian_s_thick_s8": (5, 300.0, 0.5, 8),
    "gaussian_s_thick_s8_energy": (5, 300.0, 0.5, 8),
    "su_olson_thick_s2": (2, 1.0, 400.0, 2),
    "su_olson_thick_s2_energy": (2, 1.0, 400.0, 2),
    "su_olson_thick_s8": (2, 1.0, 400.0, 8),
    "su_olson_thick_s8_energy": (2, 1.0, 400.0, 8),
}
NAMES = list(STUDIES)
ALL_TIMES = (1, 5, 10, 1.25, 0.8333333333333334)
FILES = ("run_data_transport_RMS.h5", "run_data_su_olson_RMS.h5")


class Desk(p21.Disk):
    """Data folder of the saver, and the one the plots read from."""

    def bring(self):
        for n in FILES:
            shutil.copy(self.path(n), os.path.join(self.top, "..", n))

    def __exit__(self, *a):
        for n in FILES:
            p = os.path.join(self.top, "..", n)
            if os.path.exists(p):
                os.remove(p)
        p21.Disk.__exit__(self, *a)


def numbers(s, power=False):
    """Rows of a study as the runs give them."""
    r = rng(s["seed"])
    n = s["n"]
    cells = np.cumsum(r.integers(1, 9, n)) + 1
    ms = np.full(n, s["M"])
    if s["major"] == "Ms":
        cells, ms = np.full(n, s["M"] + 2), np.cumsum(r.integers(1, 3, n))
    rms, en = 10 ** r.uniform(-7, -1, n), 10 ** r.uniform(-7, -1, n)
    return dict(cells=cells, Ms=ms, RMS=rms, energy_RMS=en,
                angles=2 ** r.integers(1, 9, n), times=10 ** r.uniform(0, 3, n))


def save(s, d):
    how = STUDIES[s["name"]]
    k = dict(problem=0 if len(how) == 1 else 5, t=s["t"], c=1.0, cv=0.0,
             x0=0.5 if len(how) == 1 else how[2], eps=1.0, mov=s["mov"],
             unc=s["unc"])
    o = p21.saver(k, dict(source=how[0], N_spaces=d["cells"], Ms=d["Ms"],
                          N_angles=d["angles"], major=s["major"],
                          sigma=1.0 if len(how) == 1 else how[1]))
    if len(how) == 1 or how[3] is None:
        o.save_RMS(d["RMS"], d["energy_RMS"], d["angles"], d["times"])
    else:
        o.save_RMS_P1_su_olson(d["RMS"], d["energy_RMS"], d["angles"],
                               d["times"], how[3])


def shelf(s):
    """Two studies with one shelf are the same table."""
    m = s["M"] if s["major"] == "cells" else None
    return (STUDIES[s["name"]], s["t"], s["unc"], s["mov"], s["major"], m)


class Figures:
    """pyplot of the plotting module, with the writing of files recorded."""

    def __enter__(self):
        self.plt = plt = mod("plots.make_plots").plt
        plt.close("all")
        self.keep = plt.savefig, plt.ylim
        self.files = []
        plt.savefig = lambda n, *a, **k: self.files.append(str(n))
        return self

    def __exit__(self, *a):
        self.plt.savefig, self.plt.ylim = self.keep
        self.plt.close("all")

    def lines(self, fign):
        if fign not in self.plt.get_fignums():
            return []
        return [ln for ax in self.plt.figure(fign).axes for ln in ax.lines]


def plotter(s):
    return mod("plots.make_plots").rms_plotter(s["t"], s["M"], s["name"],
                                               s["major"])


def tables(v):
    """Any history of studies: the plots read what was saved last."""
    stored = {}
    hits = 0
    with Desk() as desk:
        for s in v["runs"]:
            if s["save"]:
                d = numbers(s)
                save(s, d)
                stored[shelf(s)] = d
                continue
            desk.bring()
            o = plotter(s)
            try:
                o.load_RMS_data(bool(s["unc"]), bool(s["mov"]))
            except KeyError:
                if shelf(s) in stored:
                    fail(f"{s['name']}: a saved study is not found")
                continue
            if shelf(s) not in stored:
                fail(f"{s['name']}: a study that was never saved")
            judge(o, s, stored[shelf(s)])
            hits += 1
    return hits > 0


def judge(o, s, d):
    rows = ["cells", "RMS", "angles", "times"]
    if len(STUDIES[s["name"]]) > 1:
        rows.append("energy_RMS")
    if s["major"] == "Ms":
        rows.append("Ms")
        if o.N_spaces != d["cells"][0]:
            fail(f"number of cells {o.N_spaces}, not {d['cells'][0]}")
    for q in rows:
        p21.single(getattr(o, q), d[q], f"{s['name']}: {q}")


def block(x, y, d, ax, row, what, least):
    """(x, y) is a run of neighbouring points of the study."""
    xs, ys = (np.asarray(d[q], np.float32) for q in (ax, row))
    n = len(x)
    for i in range(len(xs) - n + 1):
        if np.array_equal(np.asarray(x, np.float32), xs[i:i + n]) and \
                np.array_equal(np.asarray(y, np.float32), ys[i:i + n]):
            if n < least:
                fail(f"{what}: only {n} of {len(xs)} points are drawn")
            return
    fail(f"{what}: drawn {list(zip(x, y))[:3]}, saved "
         f"{list(zip(xs, ys))[:3]}")


def drawn(v):
    """The line of a convergence plot is the study, its style the method."""
    s = dict(v["run"])
    kind = v["kind"]
    s["major"] = "Ms" if kind == "Ms" else "cells"
    energy = "energy" in s["name"]
    if kind == "best" and len(STUDIES[s["name"]]) > 1:
        kind = "cells"
    if kind == "cells" and s["t"] == 5:
        s["t"] = 10
    if kind == "cells" and s["t"] not in (1, 10) and s["name"] not in (
            "square_IC", "gaussian_IC"):
        s["t"] = 1
    s["n"] = max(s["n"], 6)
    d = numbers(s)
    with Desk() as desk, Figures() as figs:
        save(s, d)
        desk.bring()
        o = plotter(s)
        o.load_RMS_data(bool(s["unc"]), bool(s["mov"]))
        if kind == "cells":
            o.plot_RMS_vs_cells(3)
        elif kind == "Ms":
            o.plot_RMS_vs_Ms(s["name"], 3)
        elif kind == "times":
            o.plot_RMS_vs_times(3)
        elif kind == "best":
            (o.plot_best if s["mov"] else o.plot_best_static)("-o", "b")
        row = "energy_RMS" if energy and kind in ("cells", "Ms") else "RMS"
        ax = {"cells": "cells", "Ms": "Ms", "times": "times",
              "best": "cells"}[kind]
        fign = 1 if kind == "best" else 3
        mk = "-o" if kind == "best" else None
        lines = [ln for ln in figs.lines(fign)
                 if ln.get_marker() not in ("None", None, "")]
        if len(lines) != 1:
            fail(f"{len(lines)} lines for one study ({kind}, {s['name']})")
        ln = lines[0]
        block(ln.get_xdata(), ln.get_ydata(), d, ax, row,
              f"{kind} of {s['name']}", 3)
        if mk is None:
            if (ln.get_linestyle() == "-") != bool(s["mov"]):
                fail("solid lines are moving meshes, dashed ones static")
            if (ln.get_color() == "b") != bool(s["unc"]):
                fail("blue is with split-off flux, red without")
            if (ln.get_markerfacecolor() == "none") == bool(s["unc"]):
                fail("markers are filled with split-off flux")
        axes = figs.plt.figure(fign).axes[0]
        if axes.get_yscale() != "log" or axes.get_xscale() != (
                "linear" if kind == "Ms" else "log"):
            fail("errors are drawn on the wrong scale")
        # labels of angles beside the points they belong to
        for t in axes.texts:
            if not t.get_text().startswith("$S_"):
                continue
            n = int(t.get_text()[4:-2])
            at = np.asarray(d[ax], np.float32) == np.float32(
                t.get_position()[0])
            if not np.any(at & (d["angles"] == n)):
                fail(f"label {t.get_text()} at {t.get_position()} "
                     f"({kind} of {s['name']})")
        tag = f"{s['name']}_t={s['t']}" if kind != "best" else ""
        if figs.files and not all(tag in f for f in figs.files):
            fail(f"figure of {s['name']} named {figs.files}")
        if not callable(figs.plt.ylim):
            fail("the plot breaks pyplot for later ones")
    return True


def fits(v):
    """Exact laws: prefactor and rate come back, whatever the first point."""
    r = rng(v["seed"])
    n = v["n"]
    s = dict(t=1, M=v["M"], name="su_olson", major="cells")
    o = plotter(s)
    x = np.cumsum(r.integers(1, 6, n)) + 1.0
    a, c = v["rate"], 10.0 ** v["c"]
    o.cells, o.Ms = x, x
    o.RMS, o.energy_RMS = c * x ** -a, 3 * c * x ** (-a / 2)
    o.RMS[0] *= v["off"]
    close(o.find_c(), c, "prefactor of a power law", 1e-9, 0)
    o.RMS, o.energy_RMS = c * np.exp(-a * x), c * np.exp(-2 * a * x)
    o.RMS[0] *= v["off"]
    close(o.find_c_semilog(), -a, "rate of an exponential", 1e-9, 1e-12)
    # the triangle of that order
    with Figures() as figs:
        tri = mod("plots.plot_functions.order_triangle")
        tri.plt.figure(1)
        lo, hi = x[0], x[-1]
        k = 1 + v["M"]
        tri.order_triangle(lo, hi, k, c, 2, 1.5)
        ax = tri.plt.gca()
        if len(ax.lines) != 3:
            fail("a triangle has three sides")
        p = [np.array([ln.get_xdata(), ln.get_ydata()]) for ln in ax.lines]
        slope = math.log(p[0][1][1] / p[0][1][0]) / math.log(hi / lo)
        close(slope, -k, "slope of the triangle", 1e-9, 0)
        close(p[0][0], [lo, hi], "ends of the triangle", 1e-12, 0)
        close(p[1], [[lo, lo], p[0][1]], "upright side", 1e-12, 0)
        close(p[2], [[lo, hi], [p[0][1][1]] * 2], "level side", 1e-12, 0)
        if f"ORDER {k}" not in [t.get_text() for t in ax.texts]:
            fail("order written beside the triangle")
        del figs
    return True


def coefficients(v):
    """Mean size of the coefficients of a saved run, order by order."""
    r = rng(v["seed"])
    N, M, na = v["N"], v["M"], v["na"]
    ws = r.random(na) + 0.1
    coupled = v["problem"] > 0
    coef = r.normal(size=(na + coupled, N, M + 1))
    k = dict(problem=v["problem"], source=2, t=v["t"], c=v["c"], x0=0.5,
             cv=0.03, eps=1.0, mov=v["mov"], unc=v["unc"])
    pr = p21.PROBLEMS[v["problem"]]
    con = mod("plots.plot_functions.coeff_con").coeff_con
    for cell in range(N):
        mat = coef[:na]
        want = np.einsum("l,lj->j", ws, mat[:, cell]) / ws.sum()
        close(con(ws, mat, na, M, cell), want, "average over angle", 1e-12,
              1e-14)
        close(con(ws, coef[-1], na, M, cell), coef[-1][cell],
              "coefficients of the energy", 0, 0)
    with Desk() as desk, Figures() as figs:
        o = p21.saver(k, dict(source=2, N_spaces=[N], Ms=[M], N_angles=[na]))
        xs = np.linspace(0, 1, 5)
        o.save_solution(xs, xs, xs, coef, np.linspace(-1, 1, N + 1), 0.5, ws,
                        N, 0, np.zeros((na, 5)), 1.0, np.linspace(-1, 1, na))
        for n in ("dec15-3", "dec7-4", "nov23"):
            shutil.copy(desk.path("run_data.hdf5"),
                        desk.path(f"run_data_crc_{n}.hdf5"))
        q = mod("plots.make_plots").rms_plotter(k["t"], M, "square_s", "cells")
        mode = "mat" if coupled and v["mat"] else "rad"
        q.plot_coefficients(k["t"], M, "square_s", [N], pr[1],
                            "transfer" if coupled else "rad", 0.5,
                            float(k["c"]), 0.03, bool(v["unc"]), False, mode,
                            bool(v["mov"]), "-", True, 0, 3, False)
        if mode == "mat":
            want = np.abs(coef[-1]).mean(axis=0)
        else:
            want = np.abs(np.einsum("l,lkj->kj", ws, coef[:na]) /
                          ws.sum()).mean(axis=0)
        close(q.j_matrix[0], want, "mean size of coefficients", 1e-12, 1e-14)
        q.plot_coeff_boyd()
        ln = figs.lines(3)[-1]
        close(ln.get_xdata(), np.arange(M + 1.0), "orders drawn", 0, 0)
        close(ln.get_ydata(), want, "coefficients drawn", 1e-12, 1e-14)
    return True


# name of the plot: (tables drawn solid and dotted, factor c)
CURVES = {
    "plane_IC": ("plane_IC", None, 1.0), "square_IC": ("square_IC", None, 1.0),
    "square_source": ("square_source", None, 1.0),
    "square_source_s2": ("P1_su_olson_rad", "P1_su_olson_mat", 1.0),
    "square_source_s2_thick": ("P1_su_olson_rad_thick",
                               "P1_su_olson_mat_thick", 1.0),
    "gaussian_source_s2": ("P1_gaussian_rad", "P1_gaussian_mat", 1.0),
    "gaussian_source_s2_thick": ("P1_gaussian_rad_thick",
                                 "P1_gaussian_mat_thick", 1.0),
    "gaussian_IC": ("gaussian_IC", None, 1.0),
    "gaussian_source": ("gaussian_source", None, 1.0),
    "gaussian_IC_2D": ("gaussian_IC_2D", None, 1.0),
    "line_source": ("line_source", None, 1.0),
    "square_IC_c_not_one": ("square_IC", None, None),
    "gaussian_IC_c_not_one": ("gaussian_IC", None, None),
}
ROUND = ("gaussian_IC_2D", "line_source")


def benchmarks(v):
    """Curves of the benchmark plots: the tables, mirrored about zero."""
    name = v["name"]
    solid, dotted, c = CURVES[name]
    t = v["t"]
    todo = [(1.0, t)] if c else [(0.8, 1.25), (1.2, 1 / 1.2)]
    tabs = {}
    for i, nm in enumerate(p22.NAMES):
        tabs[(nm, float(t))] = p22.table(v["seed"] + i, 9, v["length"])
        tabs.setdefault((nm, 1.0), p22.table(v["seed"] + 40 + i, 9,
                                             v["length"]))
    with p22.Bench() as b, Figures() as figs:
        p22.write(b.top, tabs)
        o = mod("plots.make_plots").rms_plotter(t, 3, name, "cells")
        o.plot_bench(t, name, 7)
        for (c, tt), fign in zip(todo, (7, 17)):
            key = float(tt) * c if c != 1 else float(tt)
            tab = tabs[(solid, key)]
            dot = tabs[(dotted, key)] if dotted else None
            scale = c * math.exp(-(1 - c) * tt)
            seen = {}
            for ln in figs.lines(fign):
                x, y = ln.get_xdata(), ln.get_ydata()
                a = np.abs(x) * c
                found = None
                for what, T, row in (("solution", tab, 1),
                                     ("uncollided", tab, 2),
                                     ("energy", dot, 1)):
                    if T is None:
                        continue
                    want = np.where(a <= T[0][-1],
                                    CubicSpline(T[0], T[row])(a), 0) * scale
                    e = np.abs(y - want) > 1e-9
                    if name == "plane_IC":  # the curve ends with a zero
                        e[-1] = y[-1] != 0
                    if not e.any():
                        found = what
                if found is None:
                    fail(f"{name}: a curve that is none of the tables")
                side = "right" if x[-1] > 0 else "left"
                if abs(x[0]) > 0 or np.any(np.diff(np.abs(x)) <= 0):
                    fail(f"{name}: points out of order")
                st_ = ln.get_linestyle()
                if (st_ == "-") != (found == "solution") or \
                        (st_ == ":") != (found == "energy"):
                    fail(f"{name}: {found} drawn as {st_}")
                seen.setdefault(found, set()).add(side)
            both = {"right"} if name in ROUND else {"left", "right"}
            if seen.get("solution") != both or \
                    (dotted and seen.get("energy") != both) or \
                    seen.get("uncollided", both) != both:
                fail(f"{name}: curves {seen}")
        if not figs.files:
            fail("no figure saved")
    return True


RUN = st.fixed_dictionaries(dict(
    save=ints(0, 2), name=pick(*NAMES), t=pick(*ALL_TIMES), mov=ints(0, 1),
    unc=ints(0, 1), major=pick("cells", "Ms"), M=pick(2, 3, 4, 6),
    n=ints(3, 8), seed=ints(0, 10 ** 6)))


def near(runs):
    """Studies that differ from an earlier one in one entry, or not at all."""
    out = [runs[0]]
    for i, s in enumerate(runs[1:]):
        f = ("name", "t", "mov", "unc", "major", "M", "seed")[
            (i + s["seed"]) % 7]
        base = out[s["seed"] % len(out)]
        out.append(dict(base, save=s["save"], seed=s["seed"], n=s["n"],
                        **({} if f == "seed" else {f: s[f]})))
    out[0] = dict(out[0], save=1)
    return out


CHECKS = [
    Check("tables", case(runs=st.lists(RUN, min_size=2, max_size=9).map(near)),
          tables, quick=900, thorough=9000, jit=8),
    Check("drawn", case(run=RUN, kind=pick("cells", "Ms", "times", "best")),
          drawn, quick=500, thorough=5000, jit=4),
    Check("fits", case(seed=ints(0, 10 ** 6), n=ints(3, 9), M=ints(0, 8),
                       rate=num(0.1, 7, 0.1), c=num(-6, 2, 0.1),
                       off=pick(1.0, 0.1, 30.0)),
          fits, quick=300, thorough=3000, jit=4),
    Check("coefficients", case(
        seed=ints(0, 10 ** 6), N=ints(1, 6), M=ints(2, 6), na=ints(2, 6),
        problem=ints(0, 8), t=pick(1.0, 10.0, 0.5), c=pick(0.0, 1.0),
        mov=ints(0, 1), unc=ints(0, 1), mat=ints(0, 1)),
        coefficients, quick=300, thorough=3000, jit=4),
    Check("benchmarks", case(
        seed=ints(0, 10 ** 6), name=pick(*CURVES), t=pick(1, 5, 10),
        length=num(0.5, 20, 0.5)), benchmarks, quick=150, thorough=1500,
        jit=4),
]
