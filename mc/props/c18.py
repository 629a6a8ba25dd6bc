"""C18: unsteady aerodynamics parameters of a polar."""
import os

import numpy as np

from mc import core, prep, tables
from mc.common import need, same
from mc.rotors import _FILES, DATA

DIMS = dict(alphas=["full", "fine", "ragged", "wind", "odd", "low", "wide", "ten", "ninety", "deep", "half", "uneven"], kind=["camber", "sym", "sharp", "thick", "inv", "const", "zero"] + list(prep.ODD),
            j=[0, 1, 2, 4], lin=[None, (-3.0, 4.0), (0.0, 8.0), (-8.0, 2.0), (3.0, 9.0), (-2.0, 6.5), (-20.0, 20.0)], cm=["table", "zero", "bumps", "dip"], offset=[0.0, 1.0, -2.0, 4.0, 22.0, -22.0], file=[None] + list(_FILES),
            gain=[1.0, 0.8, 1.1, 0.003])
BASES = [dict(alphas="full", kind="camber", j=0, lin=None, cm="table", offset=0.0, file=None, gain=1.0),
         dict(alphas="odd", kind="inv", j=2, lin=(0.0, 8.0), cm="table", offset=-2.0, file=None, gain=0.8)]
ZERO = ["S1", "S2", "S3", "S4", "k0", "k1", "k2", "k3", "k1_hat"]
DEF = ["T_f0", "T_V0", "T_p", "T_VL", "b1", "b2", "b5", "A1", "A2", "A5", "St_sh", "x_cp_bar", "UACutout", "filtCutOff"]


class Tie(Exception):
    pass


class Check(core.Base):
    id = "C18"

    def states(self, tier):
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 4), core.array(DIMS, 3, 1, BASES[0]),
                          *([core.array(DIMS, 4, 2, BASES[0])] if tier != "quick" else []))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar
        from ccblade.ccblade import CCAirfoil

        if c["file"]:
            a, _, cl, cd, cm = Airfoil.initFromAerodynFile(os.path.join(DATA, _FILES[c["file"]])).createDataGrid()
            cl, cd, cm = cl[:, 0], cd[:, 0], cm[:, 0]
        else:
            a = tables.ALPHAS[c["alphas"]] if c["alphas"] in ("full", "fine", "ragged") else prep.GRIDS[c["alphas"]]
            cl, cd, cm = (prep.odd if c["kind"] in prep.ODD else tables.shape)(c["kind"], a - c["offset"], c["j"])
            cl = c["gain"] * cl
        if c["cm"] in ("bumps", "dip") and np.ptp(cl) == 0:
            raise core.Outside
        if c["cm"] == "zero":
            cm = np.zeros(len(a))
        elif c["cm"] == "bumps":
            cm = cm + 0.03 * np.sin(np.radians(9 * (a - c["offset"]))) + 0.0007 * a
        elif c["cm"] == "dip":
            cm = cm - 0.08 * np.sin(np.radians(7 * (a - c["offset"])))
        k = 0
        if a[0] <= -30 and a[-1] >= 30:
            k += self.openfast(CCAirfoil(a, [1e6], cl[:, None], cd[:, None], cm[:, None]), a.copy(), cl.copy(), cd.copy(), cm.copy())
        k += self.aerodyn(Polar(1e6, a, cl, cd, cm), a, cl, cd, c["lin"])
        if k == 0:
            raise core.Outside
        return k

    def openfast(self, af, a, cl, cd, cm):
        af.eval_unsteady(a, cl, cd, cm)
        u = af.unsteady
        k = 0
        for name, v in (("Alpha", a), ("Cl", cl), ("Cd", cd), ("Cm", cm)):
            k += same("table column " + name, u[name], v, 1e-12)
        need(u["eta_e"] == 1 and all(u[z] == 0 for z in ZERO) and all(u[d] == "Default" for d in DEF), "constants are not the documented ones")
        need(all(np.isfinite(u[x]) for x in ("alpha0", "Cd0", "Cm0", "Cn1", "Cn2", "C_nalpha", "alpha1")), "a parameter is not a number")
        same("alpha2", u["alpha2"], -u["alpha1"], 1e-12)
        cn = cl * np.cos(np.radians(a)) + cd * np.sin(np.radians(a))
        if np.ptp(cl) == 0:
            z = int(np.argmin(np.abs(a)))
            k += same("parameters of a cylinder", [u[x] for x in ("alpha0", "Cm0", "Cd0")], [0.0, 0.0, cd[z]], 1e-12, 0, 1e-12)
        else:
            near = (a >= -30) & (a <= 27)
            x, y = a[near], cl[near]
            up = [i for i in range(len(x) - 1) if y[i] < 0 <= y[i + 1]]
            down = [i for i in range(len(x) - 1) if y[i] >= 0 > y[i + 1]]
            if len(up) != 1 or down:
                return k
            i = up[0]
            t = -y[i] / (y[i + 1] - y[i])
            a0 = x[i] + t * (x[i + 1] - x[i])
            k += same("zero-lift angle", u["alpha0"], a0, 1e-9, 1e-3)
            k += same("drag at zero lift", u["Cd0"], prep.pl(a0, a, cd)[0], 1e-9, 1e-3)
            k += same("moment at zero lift", u["Cm0"], prep.pl(a0, a, cm)[0], 1e-9, 1e-3)
        if np.ptp(cm) < 1e-9:
            k += same("separation parameters without moment", [u[x] for x in ("Cn1", "Cn2", "C_nalpha", "alpha1")], [0.0] * 4, 0)
        elif np.ptp(cl) > 0:
            k += self.breaks(u, a, cd, cm, cn)
        return k

    def breaks(self, u, a, cd, cm, cn):
        """break points: largest distance of a curve from the chord between two points"""

        def nearest(x):
            d = np.sort(np.abs(a - x))
            if d[1] - d[0] < 1e-9:
                raise Tie
            return int(np.argmin(np.abs(a - x)))

        def bend(y, i, j, dist):
            """index in [i, j) of the largest positive dist(y - chord)"""
            if j <= i:
                return i
            d = [dist(y[q] - (y[i] + (y[j] - y[i]) * (a[q] - a[i]) / (a[j] - a[i]))) for q in range(i, j)]
            top = max(d)
            if top <= 1e-13:
                if top > 0:
                    raise Tie
                return i
            best = [q for q, v in enumerate(d) if v > top - 1e-12]
            if len(best) > 1:
                raise Tie
            return i + best[0]

        k = 0
        try:
            z = nearest(u["alpha0"])
            lo, hi = nearest(-30.0), nearest(a[z] + 35.0)
            w = cm[lo:hi]
            n = len(w)
            mins = [q for q in range(n) if (q == 0 or w[q] < w[q - 1]) and (q == n - 1 or w[q] < w[q + 1])]
            if not mins:
                return 0
            e = lo + mins[-1]
            i1 = bend(cm, z, e, lambda v: v)
            k += same("Cn1: the normal force where the moment breaks", u["Cn1"], cn[i1], 1e-12, 0, 1e-12)
            i2 = bend(cm, nearest(0.5 * (a[z] + a[i1]) - 30.0), z, abs)
            k += same("Cn2: the normal force where the moment breaks below zero lift", u["Cn2"], cn[i2], 1e-12, 0, 1e-12)
            top = max(i1, z + 2)
            x, y, g = np.radians(a[z:top]), cn[z:top], []
            for q in range(len(x)):
                if q == 0 or q == len(x) - 1:
                    p, r = (0, 1) if q == 0 else (q - 1, q)
                    g.append((y[r] - y[p]) / (x[r] - x[p]))
                else:  # slope of the parabola through three points
                    h, l = x[q + 1] - x[q], x[q] - x[q - 1]
                    g.append(((y[q + 1] - y[q]) / h * l + (y[q] - y[q - 1]) / l * h) / (h + l))
            k += same("C_nalpha: the largest slope between zero lift and the break", u["C_nalpha"], max(g), 1e-10, 1.0)
            k += same("alpha1: where the drag breaks", u["alpha1"], a[bend(cd, nearest(0.0), i1, lambda v: -v)], 1e-12, 0, 1e-12)
        except Tie:
            pass
        return k

    def aerodyn(self, p, a, cl, cd, lin):
        lo, hi = lin or (-5.0, 5.0)
        sel = (a >= lo) & (a <= hi)
        if np.ptp(cl) > 0 and sel.sum() < 3:
            return 0
        got = p.unsteadyparam() if lin is None else p.unsteadyparam(alpha_linear_min=lin[0], alpha_linear_max=lin[1])
        need(len(got) == 8, "%d parameters" % len(got))
        if np.ptp(cl) == 0:
            return same("parameters of a cylinder", got, [0.0] * 8, 0)
        if len(np.unique(cl)) < 12 or len(a) < 12:
            return 0
        x = np.radians(a)
        cn = cl * np.cos(x) + cd * np.sin(x)
        n, sx, sy, sxx, sxy = sel.sum(), x[sel].sum(), cn[sel].sum(), (x[sel] ** 2).sum(), (x[sel] * cn[sel]).sum()
        m = (n * sxy - sx * sy) / (n * sxx - sx ** 2)
        a0 = -(sy - m * sx) / n / m
        k = same("control setting", got[0], 0.0, 0)
        k += same("zero-cn angle", got[2], np.degrees(a0), 1e-7, 1e-2) + same("cn slope", got[3], m, 1e-7)
        k += same("angle of minimum drag", float(prep.pl(got[6], a, cd)[0]), float(np.min(cd)), 1e-12, 1e-9) + same("minimum drag", got[7], np.min(cd), 1e-12)
        need(np.min(np.abs(a - got[6])) < 1e-9, "the angle of minimum drag %g is not in the table" % got[6])

        def stall(raster, sign):
            d = [sign * (m * (np.radians(q) - a0) - prep.pl(q, a, cn)[0]) for q in raster]
            over = [v > 0.05 for v in d]
            cross = [i for i in range(len(d) - 1) if over[i] != over[i + 1]]
            if over[0] or len(cross) != 1:
                return None
            i = cross[0]
            return raster[i] + (0.05 - d[i]) / (d[i + 1] - d[i]) * (raster[i + 1] - raster[i])

        U = stall(np.arange(0.0, 40.0), 1)
        L = stall(np.arange(5.0, -40.0, -1.0), -1)
        if U is not None:
            k += same("stall angle", got[1], U, 1e-7, 1.0) + same("cn at positive stall", got[4], m * (np.radians(U) - a0), 1e-7, 0.1)
        if L is not None:
            k += same("cn at negative stall", got[5], m * (np.radians(L) - a0), 1e-7, 0.1)
        return k
