"""C20: extrapolation to all angles of attack (Viterna)."""
import numpy as np

from mc import core, prep
from mc.common import need, same

DIMS = dict(grid=["wind", "fine", "odd", "low", "wide", "pos", "ten", "deep", "half", "uneven", "even", "above", "m75", "m90"], kind=list(prep.KINDS) + list(prep.ODD), cm=["yes", "zero", "up", "start0", "last"], cdmax=[1.3, 0.05, 2.0],
            AR=[None, 10.0, 30.0, 1.0], cdmin=[0.001, 0.0, 0.05, None, 0.25], nalpha=[15, 4, 5, 40, 9, 3, 100], n=[0, 1, 2, 3], bad=[None, "cdmin", "high", "low", "at90"])
BASES = [dict(grid="wind", kind="camber", cm="yes", cdmax=1.3, AR=None, cdmin=0.001, nalpha=15, n=0, bad=None),
         dict(grid="low", kind="inv", cm="up", cdmax=2.0, AR=10.0, cdmin=0.0, nalpha=5, n=0, bad=None)]


class Check(core.Base):
    id = "C20"

    def states(self, tier):
        if tier == "quick":
            return core.union(core.lattice(DIMS, BASES, 2), core.array(dict(DIMS, bad=[None]), 3))
        return core.union(core.lattice(DIMS, BASES, 4), core.array(dict(DIMS, bad=[None]), 4))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        kw = {} if c["cdmin"] is None else dict(cdmin=c["cdmin"])  # 0.001 where it is not given
        c = dict(c, cdmin=kw.get("cdmin", 0.001))

        p = prep.make(c["grid"], c["kind"], cm=c["cm"])
        if c["bad"]:
            if c["bad"] == "high":
                p = prep.P(p.Re, np.append(p.alpha, 95.0), np.append(p.cl, 0), np.append(p.cd, 1), np.append(p.cm, 0))
            if c["bad"] == "at90":  # the matching conditions divide by the cosine of the last angle
                p = prep.P(p.Re, np.append(p.alpha, 90.0), np.append(p.cl, 0), np.append(p.cd, 1), np.append(p.cm, 0))
            if c["bad"] == "low":
                p = prep.P(p.Re, np.insert(p.alpha, 0, -95.0), np.insert(p.cl, 0, 0), np.insert(p.cd, 0, 1), np.insert(p.cm, 0, 0))
            try:
                prep.real(p, Polar).extrapolate(c["cdmax"], c["AR"], -0.1 if c["bad"] == "cdmin" else c["cdmin"], c["nalpha"])
            except Exception:
                return 1
            raise core.Violation("extrapolation is not refused (%s)" % c["bad"])
        if c["n"] == 0:
            r = prep.real(p, Polar)
            got = r.extrapolate(c["cdmax"], AR=c["AR"], nalpha=c["nalpha"], **kw)
            for y in ("alpha", "cl", "cd", "cm"):
                same("original " + y, getattr(r, y), getattr(p, y), 0)
            return self.one(p, got, c)
        ps = [prep.make(c["grid"], c["kind"], 1e6 * (j + 1), j, c["cm"]) for j in range(c["n"])]
        af = Airfoil([prep.real(q, Polar) for q in ps]).extrapolate(c["cdmax"], c["AR"], **kw)
        need(len(af.polars) == c["n"], "%d polars after extrapolation" % len(af.polars))
        return sum(self.one(q, g, c) for q, g in zip(ps, af.polars))

    def one(self, p, got, c):
        v = prep.Viterna(p, c["cdmax"], c["AR"], c["cdmin"])
        a, cl, cd, cm = (np.asarray(x, float) for x in (got.alpha, got.cl, got.cd, got.cm))
        need(len(a) == len(cl) == len(cd) == len(cm), "lengths differ")
        need(got.Re == p.Re, "Reynolds number changed")
        need(np.all(np.isfinite(np.concatenate([a, cl, cd, cm]))), "not finite")
        need(np.all(np.diff(a) > 1e-9), "angles are not strictly increasing: %s" % np.round(a, 4).tolist())
        same("first and last angle", [a[0], a[-1]], [-180.0, 180.0], 1e-12)
        need(np.min(cd) >= c["cdmin"] - 1e-12, "drag below its minimum: %g" % np.min(cd))
        for i, x in enumerate(p.alpha):  # the data that came in are still there
            j = int(np.argmin(np.abs(a - x)))
            need(abs(a[j] - x) < 1e-9, "angle %g of the data is missing" % x)
            same("lift of the data at %g" % x, cl[j], p.cl[i], 1e-12, 1e-6)
            same("drag of the data at %g" % x, cd[j], max(p.cd[i], c["cdmin"]), 1e-12, 1e-6)
            same("moment of the data at %g" % x, cm[j], p.cm[i], 1e-9, 1e-3)
        # periodic
        same("coefficients at -180 and 180", [cl[0], cd[0], cm[0]], [cl[-1], cd[-1], cm[-1]], 1e-9, 1e-6)
        for x in (-90.0, 90.0):
            if x not in p.alpha:
                same("drag square to the flow", prep.pl(x, a, cd)[0], max(v.M, c["cdmin"]), 1e-9)
        exp = np.array([v.clcd(x) for x in a])
        k = same("lift", cl, exp[:, 0], 1e-9, 1e-3) + same("drag", cd, exp[:, 1], 1e-9, 1e-3)
        k += same("moment", cm, v.cm(a, cl, cd), 1e-8, 1e-3)
        # each segment is resolved
        n = c["nalpha"] if c["n"] == 0 else 15
        lo, hi = p.alpha[0], p.alpha[-1]
        left = [(-90.0, -hi), (-hi, lo)] if lo > -hi else [(-90.0, lo)]
        for x, y in [(hi, 90.0), (90.0, 180.0 - hi), (180.0 - hi, 180.0), (-180.0 + hi, -90.0), (-180.0, -180.0 + hi)] + left:
            if y - x < 1e-6:
                continue
            t = a[(a > x - 1e-9) & (a < y + 1e-9)]
            few = n - 1 if (x, y) == (-hi, lo) else n  # one angle short of the data there
            need(len(t) >= few, "%d angles from %g to %g, %d asked for" % (len(t), x, y, n))
            need(len(t) <= n + 2, "%d angles from %g to %g, only %d asked for" % (len(t), x, y, n))
            gap = (y - x) / (n - 1) * (1 + n - few)
            need(np.max(np.diff(t)) <= gap * (1 + 1e-9) + 1e-9, "no angle within %g, between %g and %g" % (np.max(np.diff(t)), x, y))
        return 3 * len(a) + 10 + k
