"""C14: asking for derivatives does not change the answers."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, Violation, need, same

DIMS = common.without("rho", "mu", "hubHt", tsr=[7.0, 0.0, 1.5, 3.0, 9.0, 20.0], iterRe=[1, 3], calls=["loads", "totals", "coefficients"])
KEYS = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")
INPUTS = ("dr", "dchord", "dtheta", "dpresweep", "dprecurve", "dRhub", "dRtip", "dprecone", "dtilt", "dhubHt", "dyaw",
          "dshear", "dUinf", "dOmega", "dpitch")


class Check(core.Base):
    id = "C14"

    def states(self, tier):
        bases = [dict(b, iterRe=1, calls=k) for b, k in ((BASE0, "loads"), (BASE1, "totals"), (BASE2, "loads"),
                                                         (dict(tilt=0.0, yaw=0.0, shear=0.0), "coefficients"))]
        w = common.wide("rho", "mu", "hubHt", tsr=DIMS["tsr"] + [5.0, 7.5], iterRe=[1, 1, 1, 1, 3], calls=DIMS["calls"])
        return core.union(core.lattice(DIMS, bases, 1 if tier == "quick" else 2), core.array(w, 2 if tier == "quick" else 3))

    def examine(self, c):
        f = common.full(c)
        U, Om, pitch, az = rotors.operating(f)
        if f["iterRe"] > 1 and f["tsr"]:
            # the analytic derivatives do not cover the Reynolds number iteration: refused, not wrong
            rotor = rotors.make(f, derivatives=True)
            try:
                with Quiet():
                    rotor.distributedAeroLoads(U, Om, pitch, az)
            except ValueError:
                return 1
            raise Violation("derivatives with iterRe > 1 are not refused")
        if f["tsr"] and not common.ordinary(f, (az, 0.0, 90.0, 180.0, 270.0), 1e-3):
            raise Outside
        plain, both = rotors.make(f), rotors.make(f, derivatives=True)
        with Quiet() as q:
            if f["calls"] == "loads":
                a, da = plain.distributedAeroLoads(U, Om, pitch, az)
                b, db = both.distributedAeroLoads(U, Om, pitch, az)
            else:
                co = f["calls"] == "coefficients"
                a, da = plain.evaluate([U, 1.1 * U], [Om, Om], [pitch, pitch], coefficients=co)
                b, db = both.evaluate([U, 1.1 * U], [Om, Om], [pitch, pitch], coefficients=co)
        if f["tsr"] and not f["usecd"] and any("check input" in w for w in q.text()):
            raise Outside  # without drag in the induction the analysis is documented to fail at certain points
        need(da == {}, "derivatives are returned although they were not asked for")
        k = 0
        if f["calls"] == "loads":
            names, outs = KEYS, ("Np", "Tp")
            inputs = INPUTS + ("dazimuth",)
        else:
            outs = ["T", "Y", "Z", "Q", "My", "Mz", "Mb", "P"]
            outs = outs + (["C" + o for o in outs] if co else [])
            names = outs
            inputs = INPUTS + ("dprecurveTip", "dpresweepTip")
        for n in names:
            scale = 1e-3 * max(np.max(np.abs(np.asarray(a[m], float))) for m in names)
            k += same("%s with derivatives" % n, b[n], a[n], 1e-10, scale if f["calls"] != "loads" else 0.0)
        if f["blade"] != "edge4":
            for o in outs:
                need("d" + o in db, "derivatives of %s are missing" % o)
                for i in inputs:
                    need(i in db["d" + o], "d%s has no %s" % (o, i))
                    need(np.all(np.isfinite(db["d" + o][i])), "d%s %s is not finite" % (o, i))
                    k += 1
        return k
