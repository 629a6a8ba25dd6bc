"""C27: rotor geometry component."""
import numpy as np

from mc import core, omcase
from mc.common import need, same

SHAPES = {"zero": lambda x: 0 * x, "fwd": lambda x: -0.06 * x ** 2, "aft": lambda x: 0.05 * x ** 1.5, "deep": lambda x: -0.2 * x ** 2, "last": lambda x: np.where(x == x[-1], 1.5, 0.0),
          "first": lambda x: np.where(x == x[0], 2.0, 0.1)}
DIMS = dict(n=[3, 1, 2, 10], Rtip=[20.0, 2.5, 80.0, 1.0, 150.0], precone=[2.5, 0.0, -6.0, 30.0, 90.0, -170.0, 1e-3], pc=list(SHAPES), ps=list(SHAPES),
            unit=["m", "ft"], before=[None, 0, 1])
BASES = [dict(n=3, Rtip=20.0, precone=2.5, pc="fwd", ps="aft", unit="m", before=None), dict(n=10, Rtip=80.0, precone=-6.0, pc="last", ps="first", unit="ft", before=0)]
OTHER = [dict(Rtip=33.0, precone=17.0, pc="aft", ps="last"), dict(Rtip=5.0, precone=0.0, pc="first", ps="fwd")]


class Check(core.Base):
    id = "C27"
    chunk = 16

    def states(self, tier):
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 4), core.array(DIMS, 2 if tier == "quick" else 3, 1, BASES[0]))

    def examine(self, c):
        from ccblade.ccblade_component import CCBladeGeometry

        n = c["n"]
        x = np.linspace(0.1, 1.0, n) if n > 1 else np.array([1.0])

        def inputs(d):
            return {k: (v, c["unit"]) for k, v in dict(Rtip=d["Rtip"], precurve_in=d["Rtip"] * SHAPES[d["pc"]](x), presweep_in=d["Rtip"] * SHAPES[d["ps"]](x)).items()}

        p = omcase.problem(CCBladeGeometry(n_span=n), {})
        for d in ([OTHER[c["before"]]] if c["before"] is not None else []) + [c]:
            for k, (v, u) in inputs(d).items():
                p.set_val(k, v, units=u)
            p.set_val("precone", d["precone"], units="deg")
            p.run_model()
        ft = 0.3048 if c["unit"] == "ft" else 1.0
        v = {k: np.asarray(q[0]) * ft for k, q in inputs(c).items()}
        t = np.deg2rad(c["precone"])
        # radius of the tip of a coned, bent blade: distance of the tip from the shaft
        R = v["Rtip"] * np.cos(t) + v["precurve_in"][-1] * np.sin(t)
        k = 0
        for name, e in (("R", R), ("diameter", 2 * R), ("precurveTip", v["precurve_in"][-1]), ("presweepTip", v["presweep_in"][-1])):
            k += same(name, p.get_val(name, units="m"), [e], 1e-13, float(v["Rtip"]))
        J = p.compute_totals(of=["R", "diameter", "precurveTip", "presweepTip"], wrt=["Rtip", "precurve_in", "presweep_in", "precone"])
        last = np.eye(n)[-1:]
        zero = np.zeros((1, n))
        dR = dict(Rtip=[[np.cos(t)]], precurve_in=last * np.sin(t), presweep_in=zero,
                  precone=[[(-v["Rtip"] * np.sin(t) + v["precurve_in"][-1] * np.cos(t)) * np.pi / 180]])
        exp = dict(R=dR, diameter={q: 2 * np.asarray(w) for q, w in dR.items()}, precurveTip=dict(Rtip=[[0]], precurve_in=last, presweep_in=zero, precone=[[0]]),
                   presweepTip=dict(Rtip=[[0]], precurve_in=zero, presweep_in=last, precone=[[0]]))
        for o in exp:
            for w in exp[o]:
                k += same("d %s / d %s" % (o, w), J[o, w], exp[o][w], 0, 0, 1e-12 * (1 + (v["Rtip"] if w == "precone" else 0)))
        need(k == 20, "comparisons missing")
        return k
