"""C09: dynamic similarity - density and length/velocity scaling."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, need, same

DIMS = common.without("rho", "mu", "nSector", "az", pc=["none", "aft", "strong"], ps=["none", "aft"],
                      tsr=[7.0, 0.0, 1.5, 3.0, 5.0, 9.0, 12.0])
SCALES = [("length", 0.03125), ("speed", 2.0), ("density", 8.0), ("all", 4.0), ("speed", 0.00390625),
          ("length", 64.0), ("density", 0.0009765625), ("speed", 16.0)]
LEN = ("r", "chord", "Rhub", "Rtip", "hubHt", "precurve", "precurveTip", "presweep", "presweepTip")


class Check(core.Base):
    id = "C09"

    def states(self, tier):
        bases = [BASE0, {k: v for k, v in BASE1.items() if k != "az"}, BASE2]
        w = common.wide("rho", "mu", "nSector", "az", tsr=DIMS["tsr"])
        return core.union(core.lattice(DIMS, bases if tier != "quick" else bases[:2], 2 if tier == "quick" else 3),
                          core.array(w, 2 if tier == "quick" else 3))

    def examine(self, c):
        from ccblade.ccblade import CCBlade

        f = common.full(c)
        kw = rotors.rotor_args(f)
        U, Om, pitch, _ = rotors.operating(f)
        if f["tsr"]:
            if not common.ordinary(f, (0.0, 40.0, 90.0, 180.0, 270.0)):
                raise Outside
        with Quiet():
            base, _ = CCBlade(**kw).evaluate([U], [Om], [pitch], coefficients=True)
            l0, _ = CCBlade(**kw).distributedAeroLoads(U, Om, pitch, 40.0)
        k = 0
        for what, s in SCALES:
            L = s if what in ("length", "all") else 1.0
            V = s if what in ("speed", "all") else 1.0
            D = s if what in ("density", "all") else 1.0
            kw2 = dict(kw)
            for name in LEN:
                if kw2[name] is not None:
                    kw2[name] = kw2[name] * L
            kw2.update(rho=kw["rho"] * D, mu=kw["mu"] * D * V * L)  # same Reynolds numbers
            with Quiet():
                out, _ = CCBlade(**kw2).evaluate([U * V], [Om * V / L], [pitch], coefficients=True)
                l1, _ = CCBlade(**kw2).distributedAeroLoads(U * V, Om * V / L, pitch, 40.0)
            tag = " when %s is scaled by %g" % (what, s)
            sc = {}
            for name in ("CP", "CT", "CY", "CZ", "CQ", "CMy", "CMz", "CMb"):
                k += same(name + tag, out[name], base[name], 1e-6, 1e-3)
            F = D * V ** 2 * L ** 2
            for name, m in (("T", F), ("Y", F), ("Z", F), ("Q", F * L), ("My", F * L), ("Mz", F * L), ("Mb", F * L), ("P", F * V)):
                ref = max(abs(base["T"][0]), 1e-9) * (1 if m == F and name in "TYZ" else kw["Rtip"] * (abs(Om) if name == "P" else 1))
                k += same(name + tag, out[name] / m, base[name], 1e-6, 1e-3 * ref)
            for name, m in (("Np", D * V * V * L), ("Tp", D * V * V * L), ("a", 1), ("ap", 1), ("alpha", 1), ("Cl", 1), ("Cd", 1),
                            ("W", V), ("Re", 1)):
                k += same(name + tag, l1[name] / m, l0[name], 1e-5, float(np.max(np.abs(l0[name]))) * 1e-3, 1e-9)
        return k
