"""Every mesh the solver can run on, as a generated parameter dictionary."""
import numpy as np

from . import lab
from .gen import ints, num, pick, rarely, st

SRC = {"plane": (1, 0, 0, 0, 0, 0), "square": (0, 1, 0, 0, 0, 0),
       "square_source": (0, 0, 1, 0, 0, 0), "gaussian": (0, 0, 0, 1, 0, 0),
       "mms": (0, 0, 0, 0, 1, 0), "gaussian_source": (0, 0, 0, 0, 0, 1),
       "noniso": (0, 0, 0, 1, 0, 0, 1), "dipole": (2, 0, 0, 0, 0, 0),
       "boundary": (0, 0, 0, 0, 0, 0), "shell": (0, 1, 0, 0, 0, 0),
       "point": (1, 0, 0, 0, 0, 0)}

# name -> (source, geometry, cells, extra parameters)
KINDS = {
    "plane": ("plane", "slab", "any", {}),
    "dipole": ("dipole", "slab", "any", {}),
    "gaussian": ("gaussian", "slab", "any", {}),
    "noniso": ("noniso", "slab", "any", {}),
    "mms": ("mms", "slab", "any", {}),
    "gaussian_source": ("gaussian_source", "slab", "any", {}),
    "square": ("square", "slab", "four", {}),
    "square_source": ("square_source", "slab", "four", {}),
    "square_source_finite": ("square_source", "slab", "four",
                             {"finite_domain": 1}),
    "boundary": ("boundary", "slab", "even", {}),
    "point": ("point", "sphere", "any", {}),
    "shell": ("shell", "sphere", "even4", {}),
    "thick_gaussian": ("gaussian", "slab", "any", {"thick": 1}),
    "thick_gaussian_source": ("gaussian_source", "slab", "any", {"thick": 1}),
    "thick_plane": ("plane", "slab", "any", {"thick": 1}),
    "thick_square": ("square", "slab", "any", {"thick": 1}),
    "thick_square_track": ("square", "slab", "sixteen",
                           {"thick": 1, "move_type": (0, 1, 0, 0),
                            "moving": True}),
    "thick_square_source": ("square_source", "slab", "any", {"thick": 1}),
    "thick_track": ("square_source", "slab", "sixteen",
                    {"thick": 1, "move_type": (0, 1, 0, 0),
                     "finite_domain": 1, "moving": True}),
    "thick_sqrt": ("square_source", "slab", "four",
                   {"thick": 1, "move_type": (0, 0, 1, 0),
                    "finite_domain": 1}),
}


def cells(rule, n):
    if rule == "any":
        return n
    if rule == "even":
        return n + n % 2
    if rule == "even4":
        return max(4, n + n % 2)
    if rule == "four":
        return 4 * max(1, (n + 2) // 4)
    if rule == "sixteen":
        return 16 * max(1, n // 8)


def params(d):
    """d: kind, n, x0, tf, moving, ev, frac, t0f, pads, waves."""
    src, geom, rule, extra = KINDS[d["kind"]]
    N = cells(rule, d["n"])
    p = dict(geom=geom, source=SRC[src], N_space=N, x0=d["x0"],
             tfinal=d["tf"], moving=bool(d["moving"]), edge_v=d["ev"],
             t0=d["t0f"] * d["tf"], sigma=d["x0"], N_ang=4, M=2,
             move_factor=d["mf"])
    p.update(extra)
    if d["kind"] == "plane":
        p["x0"] = d["x0"] * 1e-6
    if d["kind"] == "boundary":
        # the shock stays inside the slab
        p["fake_sedov_v0"] = d["frac"] * 0.9 * d["x0"] / d["tf"]
        p["boundary_on"] = (1, 0)
        p["boundary_source"] = 1
    if p.get("finite_domain"):
        if d["kind"] == "square_source_finite":
            # final half-width: beyond what the linear phase has reached
            p["pad"] = d["x0"] + 0.01 + d["ev"] * d["tf"] * (1 + d["frac"])
        else:
            p["pad"] = 0.01 + 0.2 * d["frac"]
            p["leader_pad"] = p["pad"] * (1.5 + d["frac"])
        p["domain_width"] = 1e4
    if d["kind"] in ("thick_track", "thick_square_track"):
        p.setdefault("pad", 0.01 + 0.2 * d["frac"])
        k = len(d["waves"])
        t = np.concatenate([[0.0], np.linspace(0, d["tf"], k + 1)[1:]])
        loc = d["x0"] + np.concatenate([[0.0], np.cumsum(d["waves"])])
        arr = np.zeros((1, 4, k + 1))
        arr[0, 0], arr[0, 2], arr[0, 3] = t, loc + 0.1, loc
        p["wave_loc"] = arr.tolist()
    return p


def strategy(kinds=None, **over):
    from .gen import case
    kw = dict(kind=pick(*(kinds or KINDS)), n=rarely(ints(2, 24), 32, 48, 64),
              x0=rarely(num(0.1, 4, 0.05), 0.01, 20.0, 400.0),
              tf=rarely(num(0.2, 10, 0.1), 0.01, 31.6, 100.0), moving=ints(0, 1),
              ev=pick(1.0, 1.0, 0.5773502691896258, 0.5, 2.0),
              mf=num(0.5, 3, 0.1), frac=num(0, 1, 0.05),
              t0f=num(0.1, 0.9, 0.05),
              waves=st.lists(num(0.01, 1, 0.01), min_size=2, max_size=6))
    kw.update(over)
    return case(**kw).map(fit)


def fit(d):
    """Not everything large at once."""
    unknowns = d.get("ang", 4) * (d.get("M", 2) + 1)
    if d["n"] * unknowns > 400:
        d = dict(d, n=max(2, min(d["n"], 400 // unknowns)))
    if d["kind"] == "mms":      # exp(x * x / 2) is a float
        d = dict(d, tf=min(d["tf"], 20.0), x0=min(d["x0"], 10.0))
    return d
