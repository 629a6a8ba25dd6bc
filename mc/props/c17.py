"""C17: operating points chosen on an airfoil (best efficiency, margin to stall)."""
import os

import numpy as np

from mc import core, tables
from mc.common import need, same
from mc.rotors import _FILES, DATA

DIMS = dict(alphas=["full", "fine", "ragged", "cyl3", "cyl2", "four", "five"], nre=[1, 2, 3, 4, 5, 6, 13, 22, 24],
            kind=["camber", "sym", "sharp", "thick", "inv", "const", "zero"], Re=[1e6, 2e5, 4.4e6, 3e7, 4e4], margin=[5.0, 0.0, 2.0, 12.0, 45.0, -3.0, 0.37],
            file=[None] + list(_FILES))
BASE = dict(alphas="full", nre=1, kind="camber", Re=1e6, margin=5.0, file=None)


class Check(core.Base):
    id = "C17"

    def states(self, tier):
        d = dict(DIMS, file=[None])
        bases = [BASE, dict(BASE, nre=4, alphas="fine", kind="sharp")]
        return core.union(core.lattice(DIMS, bases, 2 if tier == "quick" else 4), core.array(d, 3 if tier == "quick" else 4))

    def examine(self, c):
        from ccblade.ccblade import CCAirfoil

        c = dict(BASE, **c)

        if c["file"]:
            af = CCAirfoil.initFromAerodynFile(os.path.join(DATA, _FILES[c["file"]]))
            table = af.alpha
        else:
            t = tables.grid(c["alphas"], c["nre"], c["kind"])
            af = CCAirfoil(*t[:4])
            table = np.deg2rad(t[0])
        R = c["Re"]
        raster = np.deg2rad(np.linspace(-20, 40, 201))
        cl, cd = (np.array([float(af.evaluate(x, R)[k]) for x in raster]) for k in (0, 1))
        E, alpha, cle, cde = [float(v) for v in af.max_eff(R)]
        w = [float(v) for v in af.evaluate(alpha, R)]
        k = same("cl, cd at the most efficient angle", [cle, cde], w, 1e-10, 1e-4)
        k += same("greatest efficiency", E, w[0] / w[1], 1e-10, 1e-4)
        cylinder = len(table) == 3  # -180, 0, 180
        if cylinder:
            need(alpha == 0.0, "angle of best efficiency of a cylinder is %g" % alpha)
        else:
            need(np.deg2rad(-20.01) <= alpha <= np.deg2rad(40.01), "angle of best efficiency is %g deg" % np.rad2deg(alpha))
            need(E >= np.max(cl / cd) - 1e-9 * (1 + abs(np.max(cl / cd))), "efficiency %g at %g deg, but %g at %g deg" % (
                E, np.rad2deg(alpha), np.max(cl / cd), np.rad2deg(raster[np.argmax(cl / cd)])))
        k += 2
        E, alpha, cle, cde = [float(v) for v in af.awayfromstall(R, c["margin"])]
        w = [float(v) for v in af.evaluate(alpha, R)]
        k += same("cl, cd away from stall", [cle, cde], w, 1e-10, 1e-4)
        k += same("efficiency away from stall", E, w[0] / w[1], 1e-10, 1e-4)
        if cylinder:
            need(alpha == 0.0, "angle away from stall of a cylinder is %g" % alpha)
        else:
            stall = alpha + np.deg2rad(c["margin"])
            need(np.deg2rad(-20.01) <= stall <= np.deg2rad(40.01), "stall at %g deg" % np.rad2deg(stall))
            at = float(af.evaluate(stall, R)[0])
            need(at >= np.max(cl) - 1e-9, "lift at the stall point (%g deg) is %g, but %g at %g deg" % (
                np.rad2deg(stall), at, np.max(cl), np.rad2deg(raster[np.argmax(cl)])))
        return k + 2
