"""C21: rotational augmentation (3-D stall delay) of polars."""
import numpy as np

from mc import core, prep
from mc.common import need, same

DIMS = dict(grid=["wind", "fine", "odd", "low", "wide", "ten", "ninety", "deep", "half", "uneven", "full", "third"], kind=list(prep.KINDS) + list(prep.ODD), rR=[0.5, 0.15, 0.3, 0.75, 1.0, 0.04],
            cr=[0.2, 0.02, 0.08, 0.6, 0.95, 0.004], tsr=[7.0, 0.5, 2.0, 12.0, 25.0], amax=[None, 20.0, 45.0, 10.0, 70.0, 3.0], lin=[None, (-3.0, 4.0), (-5.0, 0.0), (0.0, 8.0), (-11.0, 13.0)], n=[0, 1, 3],
            cm=["yes", "zero"], Re=[1e6, 54321.0, 8.7e7])
BASES = [dict(grid="wind", kind="camber", rR=0.5, cr=0.2, tsr=7.0, amax=None, lin=None, n=0, cm="yes", Re=1e6),
         dict(grid="ninety", kind="thick", rR=0.15, cr=0.6, tsr=2.0, amax=20.0, lin=(-5.0, 0.0), n=3, cm="yes", Re=1e6)]


class Check(core.Base):
    id = "C21"

    def states(self, tier):
        if tier == "quick":
            return core.union(core.lattice(DIMS, BASES, 2), core.array(DIMS, 3))
        return core.union(core.lattice(DIMS, BASES, 4), core.array(DIMS, 4))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        kw, ref = {}, {}
        if c["amax"] is not None:
            kw["alpha_max_corr"] = ref["amax"] = c["amax"]
        if c["lin"] is not None:
            kw["alpha_linear_min"], kw["alpha_linear_max"] = ref["amin_lin"], ref["amax_lin"] = c["lin"]
        ps = [prep.make(c["grid"], c["kind"], c["Re"] * (j + 1), j, c["cm"]) for j in range(max(1, c["n"]))]
        lo, hi = c["lin"] or (-5.0, 5.0)
        if np.sum((ps[0].alpha >= lo) & (ps[0].alpha <= hi)) < 2:
            raise core.Outside
        rs = [prep.real(p, Polar) for p in ps]
        if c["n"] == 0:
            got = [rs[0].correction3D(c["rR"], c["cr"], c["tsr"], **kw)]
        else:
            got = Airfoil(rs).correction3D(c["rR"], c["cr"], c["tsr"], **kw).polars
        need(len(got) == len(ps), "%d polars come back" % len(got))
        k = 0
        for p, r, g in zip(ps, rs, got):
            e = prep.stall3d(p, c["rR"], c["cr"], c["tsr"], **ref)
            k += same("angles", g.alpha, e.alpha, 1e-12, 1e-6) + same("Reynolds number", g.Re, e.Re, 1e-12)
            big = max(1e-3, float(np.max(np.abs(e.cl))))
            k += same("lift", g.cl, e.cl, 1e-8, big) + same("drag", g.cd, e.cd, 1e-8, 1e-2) + same("moment", g.cm, p.cm, 1e-12)
            for y in ("alpha", "cl", "cd", "cm"):
                k += same("original " + y, getattr(r, y), getattr(p, y), 0)
        # a polar whose lift is linear is not corrected
        p = ps[0]
        line = prep.P(p.Re, p.alpha, 0.1 * (p.alpha + 2.0), p.cd, p.cm)
        g = prep.real(line, Polar).correction3D(c["rR"], c["cr"], c["tsr"], **kw)
        k += same("lift of a polar without stall", g.cl, line.cl, 1e-9, 1.0)
        return k
