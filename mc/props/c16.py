"""C16: the derivatives of an airfoil object are those of the coefficients it returns."""
import numpy as np

from mc import core, fd, tables
from mc.common import need

DIMS = dict(alphas=["full", "fine", "ragged", "short", "cyl3", "cyl2", "four", "five"], nre=[1, 0, 2, 3, 4, 5, 6, 13, 22, 24],
            kind=["camber", "sym", "sharp", "thick", "inv", "const", "zero"],
            alpha=[3.3, -179.7, -93.3, -31.3, -17.3, -8.2, -3.1, 0.05, 6.7, 10.1, 14.6, 22.3, 48.0, 91.0, 133.0, 178.9, 185.0, -200.0],
            Re=[1.3e6, 3e4, 2.3e5, 5.5e5, 2.6e6, 6.1e6, 1.5e7, 9e7, 1.02e5, 2.05e5, 5.1e5, 7.8e6, 8.8e6, 1.95e7, 9.6e5, 400.0, 4e3, 2.7e4, 2e8, 1e9])
BASE = dict(alphas="full", nre=4, kind="camber", alpha=3.3, Re=1.3e6)
_cache = {}


class Check(core.Base):
    id = "C16"

    def states(self, tier):
        return core.union(core.lattice(DIMS, [BASE, dict(BASE, nre=2), dict(BASE, nre=1)], 2 if tier == "quick" else 3),
                          core.array(DIMS, 3 if tier == "quick" else 4))

    def examine(self, c):
        from ccblade.ccblade import CCAirfoil

        key = (c["alphas"], c["nre"], c["kind"])
        if key not in _cache:
            if len(_cache) > 200:
                _cache.clear()
            _cache[key] = CCAirfoil(*tables.grid(*key)[:4])
        af = _cache[key]
        alpha, R = np.deg2rad(c["alpha"]), c["Re"]
        got = [float(v) for v in af.derivatives(alpha, R)]
        need(len(got) == 4, "derivatives returns %d values" % len(got))
        da, ea = fd.central(lambda t: np.array([float(v) for v in af.evaluate(alpha + t, R)]), 1e-4)
        dR, eR = fd.central(lambda t: np.array([float(v) for v in af.evaluate(alpha, R + t)]), 1e-3 * R)
        k = 0
        for name, g, w, e, s in (("dcl/dalpha", got[0], da[0], ea[0], 0.1), ("dcl/dRe", got[1], dR[0], eR[0], 1e-2 / R),
                                 ("dcd/dalpha", got[2], da[1], ea[1], 0.01), ("dcd/dRe", got[3], dR[1], eR[1], 1e-3 / R)):
            if e > 1e-2 * max(abs(w), s):  # a knot inside the stencil
                continue
            need(np.isfinite(g) and abs(g - w) <= 1e-4 * max(abs(w), s) + 2 * e + 1e-12 / R,
                 "%s is %g, finite differences of evaluate give %g" % (name, g, w))
            k += 1
        return k
