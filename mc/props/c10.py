"""C10: symmetries of the rotor problem, checked on the transitions of the configuration lattice."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, need, same

DIMS = common.without("rho", "mu", tsr=[7.0, 0.0, 1.5, 3.0, 5.0, 9.0, 12.0], nSector=[4, 1, 5, 6, 8])
NAMES = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")


class Check(core.Base):
    id = "C10"

    def states(self, tier):
        bases = [BASE0, BASE1, dict(BASE2, tilt=0.0, yaw=0.0, shear=0.0), dict(shear=0.0, yaw=12.0)]
        w = common.wide("rho", "mu", tsr=DIMS["tsr"], tilt=[-5.0, 0.0, 0.0, 8.0, -20.0], yaw=[0.0, 12.0, 0.0, -35.0],
                        shear=[0.2, 0.0, 0.0, 0.45])
        return core.union(core.lattice(DIMS, bases, 2 if tier == "quick" else 3), core.array(w, 2 if tier == "quick" else 3))

    def examine(self, c):
        from ccblade.ccblade import CCBlade

        f = common.full(c)
        kw = rotors.rotor_args(f)
        U, Om, pitch, az = rotors.operating(f)
        if f["tsr"] and not common.ordinary(f, (az, az + 180.0, az + 90.0, 0.0, 90.0, 180.0, 270.0)):
            raise Outside
        k = 0

        def loads(kw, pitch, az):
            with Quiet():
                return CCBlade(**kw).distributedAeroLoads(U, Om, pitch, az)[0]

        def eq(what, x, y):
            n = 0
            for name in NAMES:
                n += same("%s %s" % (name, what), x[name], y[name], 1e-5, float(np.max(np.abs(y[name]))) * 1e-3, 1e-8)
            return n

        base = loads(kw, pitch, az)
        for turn in (360.0, -360.0):
            k += eq("one revolution (%g deg) later" % turn, loads(kw, pitch, az + turn), base)
        for d in (3.0, -20.0):
            shifted = loads(dict(kw, theta=kw["theta"] + d), pitch - d, az)
            k += eq("with %g deg moved from pitch to twist" % d, shifted, base)
        if f["shear"] == 0.0:
            k += eq("with wind direction turned half around the shaft",
                    loads(dict(kw, yaw=-kw["yaw"], tilt=-kw["tilt"]), pitch, az + 180.0), base)
            if kw["tilt"] == 0.0:
                k += eq("with yaw exchanged for tilt", loads(dict(kw, yaw=0.0, tilt=kw["yaw"]), pitch, az - 90.0), base)
            if kw["tilt"] == 0.0 and kw["yaw"] == 0.0:
                for other in (az + 77.0, az + 180.0):
                    k += eq("at another azimuth of an axisymmetric rotor", loads(kw, pitch, other), base)
                with Quiet():
                    o1, _ = CCBlade(**kw).evaluate([U], [Om], [pitch], coefficients=True)
                    o2, _ = CCBlade(**dict(kw, nSector=9)).evaluate([U], [Om], [pitch], coefficients=True)
                F, M = abs(o1["T"][0]) + 1e-9, abs(o1["Mb"][0]) + abs(o1["Q"][0]) + 1e-9
                for name, s in (("Y", F), ("Z", F), ("My", M), ("Mz", M)):
                    k += same("%s of an axisymmetric rotor" % name, o1[name], [0.0], 0, 0, 1e-9 * s)
                for name in o1:
                    if name != "W":
                        k += same("%s with other azimuthal resolution" % name, o1[name], o2[name], 1e-8, 0,
                                  1e-8 * (F + M + abs(o1["P"][0])) if not name.startswith("C") else 1e-8)
        return k
