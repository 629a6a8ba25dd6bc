"""C33: the compiled kernels stay inside their arrays and use no uninitialised values (instrumented build)."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, need

DIMS = common.without("rho", "mu", "hubHt", "iterRe", n=[2, 3, 4, 5, 9, 17], tsr=[7.0, 0.0, 1.5, 3.0, 9.0, 20.0],
                      calls=["loads", "totals", "dloads", "dtotals", "csystem"], blade=["made"], af=["one", "multi", "cyl"])


class Check(core.Base):
    id = "C33"
    variant = "checked"
    limit = 300

    def states(self, tier):
        bases = [dict(dict(b, blade="made", af=a), n=n, calls=k) for b, n, k, a in (
            (BASE0, 2, "dtotals", "one"), (BASE1, 3, "dloads", "multi"), (BASE2, 5, "totals", "one"), (dict(pc="aft", ps="aft"), 4, "csystem", "cyl"))]
        for b in bases:
            b.pop("iterRe", None)
        return core.lattice(DIMS, bases, 2 if tier == "quick" else 3)

    def examine(self, c):
        from ccblade.ccblade import CCBlade

        n = c["n"]
        R = 20.0
        r = np.linspace(2.0, 19.0, n) if n > 1 else np.array([10.0])
        rotors.BLADES["made"] = (list(r), list(np.linspace(2.2, 0.8, n)), list(np.linspace(14.0, 0.5, n)), 1.5, R)
        f = common.full(c)
        kw = rotors.rotor_args(f)
        U, Om, pitch, az = rotors.operating(f)
        if f["tsr"] and not common.ordinary(f, (az, 0.0, 90.0, 180.0, 270.0), 1e-3):
            raise Outside
        k = 0
        with Quiet():
            if c["calls"] == "csystem":
                return self.csystem(f, r)
            rotor = CCBlade(derivatives=c["calls"].startswith("d"), **kw)
            if c["calls"].endswith("loads"):
                out = rotor.distributedAeroLoads(U, Om, pitch, az)
            else:
                out = rotor.evaluate([U, 1.2 * U], [Om, Om], [pitch, pitch + 1], coefficients=True)
        from mc.props.c08 import flat

        for p, a in flat(out):
            need(np.all(np.isfinite(a)), "%s is not finite: an uninitialised value was used" % p)
            k += a.size
        return k

    def csystem(self, f, r):
        import ccblade._bem as b

        n = len(r)
        pc = 0.0005 * r ** 2
        x, y, z, cone, s = b.definecurvature(r, pc, 0.5 * pc, np.deg2rad(f["precone"]))
        for a in (x, y, z, cone, s):
            need(np.all(np.isfinite(a)), "curvature is not finite")
        return 5 * n
