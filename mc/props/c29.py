"""C29: rotor evaluation component."""
import numpy as np

from mc import common, core, omcase
from mc.common import Outside, Quiet, need, same
from mc.props import c28

DIMS = {k: v for k, v in c28.DIMS.items() if k != "az"}
DIMS.update(ps=["none", "zero", "aft", "strong", "slight", "bump"], nSector=[4, 1, 7], unset=[u for u in DIMS["unset"] if u != "azimuth_load"] + ["presweep"])
MORE = {k: v for k, v in c28.MORE.items() if k != "az"}
MORE.update(ps=DIMS["ps"] + ["wave", "ztip", "neartip"], nSector=[4, 1, 7, 8, 11], unset=DIMS["unset"])
BASES = [dict({k: v for k, v in c28.complete(b).items() if k != "az"}, ps=s) for b, s in zip(c28.BASES, ("aft", "none"))]
WRT = {k: v for k, v in c28.WRT.items() if k != "azimuth_load"}
WRT.update(precurveTip="dprecurveTip", presweep="dpresweep", presweepTip="dpresweepTip")
OUT = dict(P=["P"], Mb=["Mb"], Fhub=["T", "Y", "Z"], Mhub=["Q", "My", "Mz"], CP=["CP"], CMb=["CMb"], CFhub=["CT", "CY", "CZ"], CMhub=["CQ", "CMy", "CMz"])


class Check(core.Base):
    id = "C29"
    chunk = 4

    def states(self, tier):
        if tier == "quick":
            return core.union(core.lattice(DIMS, BASES[:1], 2), core.lattice(DIMS, BASES[1:], 1), core.array(DIMS, 2, 1, BASES[0]), core.array(MORE, 2, 1, BASES[0]))
        return core.union(core.lattice(DIMS, BASES[:1], 3), core.lattice(DIMS, BASES[1:], 2), *[core.array(d, 2, k, BASES[0]) for k in range(1, 8) for d in (DIMS, MORE)])

    def inputs(self, c):
        f, kw, d, op = c28.inputs(dict(c, az=0.0))
        n = len(kw["r"])
        if kw.get("presweep") is None:
            kw["presweep"] = np.zeros(n)
        d.pop("azimuth_load")
        d.update(presweep=kw["presweep"], presweepTip=kw.get("presweepTip", 0.0))
        return f, kw, d, op

    def examine(self, c):
        from ccblade.ccblade import CCBlade
        from ccblade.ccblade_component import CCBladeEvaluate

        c = omcase.default(c, 9.0)
        f, kw, d, op = self.inputs(c)
        azs = 360.0 * np.arange(max(4, f["nSector"])) / max(4, f["nSector"])
        if f["tsr"] and not common.ordinary(f, azs, 0.02):
            raise Outside
        n = len(kw["r"])
        one = [np.array([v]) for v in op[:3]]
        with Quiet():
            p = omcase.problem(CCBladeEvaluate(modeling_options=omcase.options(c, n)), omcase.leave(c, dict(d)))
            if c["before"] is not None:
                omcase.put(p, self.inputs(dict(c, **c28.OTHER[c["before"]]))[2])
                p.run_model()
                p.compute_totals(of=["P"], wrt=["V_load"])
                omcase.put(p, d)
            p.run_model()
            plain, _ = CCBlade(**kw).evaluate(*one, coefficients=True)
            _, D = CCBlade(**dict(kw, derivatives=True)).evaluate(*one, coefficients=True)
            J = p.compute_totals(of=list(OUT), wrt=list(WRT))
        k = 0
        for o, names in OUT.items():
            e = np.array([plain[q][0] for q in names])
            k += same(o, np.ravel(p.get_val(o)), e, 1e-11, max(1e-12, np.abs(e).max()))
            for w, key in WRT.items():
                E = np.array([np.ravel(D["d" + q][key]) for q in names])
                need(E.shape == J[o, w].shape, "d %s / d %s has shape %s, expected %s" % (o, w, J[o, w].shape, E.shape))
                k += same("d %s / d %s" % (o, w), J[o, w], E, 1e-9, max(1e-12, np.abs(E).max()))
        return k
