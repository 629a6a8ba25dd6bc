"""C28: blade load component."""
import numpy as np

from mc import common, core, omcase
from mc.common import Outside, Quiet, need, same

DIMS = dict(blade=["mid4", "two2", "fat3", "slim5"], foil=list(omcase.FOILS), B=[3, 2, 1], rho=[1.225, 0.4, 998.0], mu=[1.81206e-5, 1e-3], precone=[2.5, 0.0, -6.0],
            tilt=[-5.0, 0.0, 8.0], yaw=[0.0, 12.0, -35.0], shear=[0.2, 0.0, 0.45], hubHt=[80.0, 66.0], pc=["none", "zero", "fwd", "aft", "strong", "slight", "wave"], tip=[True, False],
            hub=[True, False], wake=[True, False], usecd=[True, False], nSector=[4, 1], U=[9.0, 2.5, 25.0], tsr=[7.0, 0.0, 3.0, 9.0], pitch=[0.0, -4.0, 3.0, 45.0, 88.0, 100.0, -95.0],
            az=[0.0, 30.0, 180.0, 270.0], before=[None, 0, 1, 2, 3],
            unset=[None, "V_load", "Omega_load", "pitch_load", "azimuth_load", "precone", "tilt", "yaw", "shearExp", "precurve", "nSector", "tiploss", "hubloss", "wakerotation", "usecd"])
# more values for the orthogonal arrays
MORE = dict(DIMS, blade=DIMS["blade"] + ["odd6", "long26", "big3", "r5"], B=[3, 2, 1, 4, 5], precone=[2.5, 0.0, -6.0, 8.0, -2.5, 20.0], tilt=[-5.0, 0.0, 8.0, 3.0, -1.0, -14.0, 20.0], yaw=[0.0, 12.0, -35.0, -12.0, 1.0, 40.0],
            shear=[0.2, 0.0, 0.45, 1.0, 0.1, -0.1], hubHt=[80.0, 66.0, 200.0], pc=DIMS["pc"] + ["bump", "ztip", "neartip"], nSector=[4, 1, 6, 9], U=[9.0, 2.5, 25.0, 11.4, 0.5, 60.0],
            tsr=[7.0, 0.0, 3.0, 9.0, 5.0, 12.0, 0.3], pitch=DIMS["pitch"] + [-30.0, 12.0, 1.0], az=DIMS["az"] + [225.0, 361.0, -50.0, -200.0, 800.0])
BASES = [dict(blade="mid4", foil="mixed", pc="aft", az=30.0, before=None), dict(blade="slim5", foil="re", B=2, precone=-6.0, tilt=8.0, yaw=12.0, shear=0.45, pc="fwd", U=14.0, tsr=3.0,
                                                                               pitch=3.0, az=225.0, before=1)]
OTHER = [dict(U=12.0, tsr=5.0, pitch=8.0, az=77.0, tilt=3.0, precone=1.0, B=4, tip=False, rho=1.0, shift=1), dict(U=6.0, tsr=0.0, pitch=80.0, az=190.0, tilt=0.0, wake=False), dict(shift=2), dict(U=9.001, tsr=7.001)]
WRT = dict(r="dr", chord="dchord", theta="dtheta", precurve="dprecurve", Rhub="dRhub", Rtip="dRtip", hub_height="dhubHt", precone="dprecone", tilt="dtilt", yaw="dyaw",
           shearExp="dshear", V_load="dUinf", Omega_load="dOmega", pitch_load="dpitch", azimuth_load="dazimuth")
DEFAULT = dict(blade="mid4", foil="one", B=3, rho=1.225, mu=1.81206e-5, precone=2.5, tilt=-5.0, yaw=0.0, shear=0.2, hubHt=80.0, pc="none", tip=True, hub=True, wake=True,
               usecd=True, nSector=4, U=9.0, tsr=7.0, pitch=0.0, az=0.0, before=None, unset=None)


def complete(c):
    return dict(DEFAULT, **c)


def inputs(c):
    f, kw = omcase.kwargs(c)
    d = omcase.rotor_inputs(f, kw, c["foil"], c.get("shift", 0))
    U, Om, pitch, az = common.rotors.operating(f)
    d.update(theta=kw["theta"], V_load=U, Omega_load=Om, pitch_load=pitch, azimuth_load=az)
    return f, kw, d, (U, Om, pitch, az)


class Check(core.Base):
    id = "C28"
    chunk = 8

    def states(self, tier):
        bases = [complete(b) for b in BASES]
        return core.union(core.lattice(DIMS, bases, 2 if tier == "quick" else 3), core.array(DIMS, 2, 1, bases[0]), core.array(MORE, 2, 1, bases[0]),
                          *([core.array(d, 2, k, bases[0]) for k in range(2, 12) for d in (DIMS, MORE)] if tier != "quick" else []))

    def examine(self, c):
        from ccblade.ccblade import CCBlade
        from ccblade.ccblade_component import CCBladeLoads

        c = omcase.default(c)
        f, kw, d, op = inputs(c)
        if f["tsr"] and not common.ordinary(f, (op[3],), 0.02):
            raise Outside
        n = len(kw["r"])
        with Quiet():
            p = omcase.problem(CCBladeLoads(modeling_options=omcase.options(c, n)), omcase.leave(c, dict(d)))
            if c["before"] is not None:
                omcase.put(p, inputs(dict(c, **OTHER[c["before"]]))[2])
                p.run_model()
                p.compute_totals(of=["loads_Px"], wrt=["V_load"])
                omcase.put(p, d)
            p.run_model()
            L, D = CCBlade(**dict(kw, derivatives=True)).distributedAeroLoads(*op)
            plain, _ = CCBlade(**kw).distributedAeroLoads(*op)
            J = p.compute_totals(of=["loads_r", "loads_Px", "loads_Py", "loads_Pz"], wrt=list(WRT) + ["precurveTip"])
        big = max(np.abs(plain["Np"]).max(), np.abs(plain["Tp"]).max())
        k = same("loads_r", p.get_val("loads_r", units="m"), kw["r"], 1e-12)
        k += same("loads_Px", p.get_val("loads_Px", units="N/m"), plain["Np"], 1e-12, big)
        k += same("loads_Py", p.get_val("loads_Py", units="N/m"), -plain["Tp"], 1e-12, big)
        k += same("loads_Pz", p.get_val("loads_Pz", units="N/m"), np.zeros(n), 0)
        for w, key in WRT.items():
            k += same("d loads_r / d %s" % w, J["loads_r", w], np.eye(n) if w == "r" else np.zeros((n, J["loads_r", w].shape[1])), 1e-12)
            k += same("d loads_Pz / d %s" % w, J["loads_Pz", w], np.zeros(J["loads_Pz", w].shape), 0)
            for o, s, q in (("loads_Px", 1, "dNp"), ("loads_Py", -1, "dTp")):
                e = s * np.asarray(D[q][key])
                need(e.size == J[o, w].size, "d%s %s has shape %s" % (q, key, e.shape))
                e = e.reshape(J[o, w].shape)
                k += same("d %s / d %s" % (o, w), J[o, w], e, 1e-10, max(1e-12, np.abs(e).max()))
        # inputs without derivatives have no influence
        with Quiet():
            p.set_val("precurveTip", d["precurveTip"] + 0.7, units="m")
            p.run_model()
        for o, e in (("loads_Px", plain["Np"]), ("loads_Py", -plain["Tp"])):
            need(not np.any(J[o, "precurveTip"]), "d %s / d precurveTip is not zero" % o)
            k += same("%s with another precurve at the tip" % o, p.get_val(o, units="N/m"), e, 1e-12, big)
        return k
