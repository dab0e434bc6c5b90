"""Emission of the material from its energy density."""
import numpy as np

from .. import gen, lab, ref
from ..core import Check
from ..gen import case, close, fail, ints, num, pick, rarely, st

RULE = "M >= 1 and an energy density that varies in the cell"
ASSUMPTIONS = [
    "Quadrature fine enough to integrate the fourth power of the energy.",
    "The radiation constant is 0.0137225 GJ/cm^3/keV^4.",
]
A_RAD = 0.0137225


def emission(d):
    M = d["M"]
    p = dict(M=M, N_ang=4, N_space=2, x0=0.5, source=(1, 0, 0, 0, 0, 0),
             thermal=d["coupled"], temp_function=d["fn"], cv0=d["cv"],
             xs_order=40)
    T = lab.make_T(lab.make_build(p))
    hit = False
    for k, (a, w) in enumerate(d["cells"]):
        b = a + w
        e = gen.coeffs(dict(d["u"], seed=d["u"]["seed"] + k), (1, M + 1))[0]
        e = np.ascontiguousarray(e)
        if d["positive"]:
            e[0] = abs(e[0]) + 4 * np.sum(np.abs(e[1:])) + 0.1
        T.make_H(a, b, e)
        got = np.array(T.H)
        if not d["coupled"]:
            want = np.zeros(M + 1)
        elif d["fn"][0]:
            # Su-Olson: the heat capacity goes with T^3, so the emission is
            # linear in the energy density (and keeps its sign)
            want = e
        else:
            eb = lambda x: sum(c * ref.leg(i, x, a, b)
                               for i, c in enumerate(e))
            want = np.array([ref.gl_pieces(
                lambda x: (eb(x) * A_RAD / d["cv"]) ** 4 * ref.leg(j, x, a, b),
                np.linspace(a, b, 3)) for j in range(M + 1)])
        close(got, want, f"emission in [{a},{b}]", 1e-7, 1e-12)
        hit = hit or bool(np.any(e[1:] != 0)) and bool(d["coupled"])
    return hit and M >= 1


CHECKS = [
    Check("emission", case(M=rarely(ints(0, 6), 9, 11), fn=pick([1, 0], [0, 1]),
                           coupled=pick(1, 1, 1, 0), cv=rarely(num(0.01, 0.5), 1.0, 5.0),
                           positive=ints(0, 1), u=gen.coeff_spec(),
                           cells=st.lists(st.tuples(num(-4, 4),
                                                    num(0.02, 2)).map(list),
                                          min_size=1, max_size=3)),
          emission, quick=1600),
]
