"""C11: derivatives of the distributed loads."""
import numpy as np

from mc import common, core, fd, rotors
from mc.common import Outside, Quiet, Violation, need, same

DIMS = dict(
    blade=["mid4", "big3", "slim5", "fat3", "two2"],
    af=["one", "multi", "multi5", "two", "sym", "camber", "cyl", "naca", "cyl+du40+naca"],
    B=[3, 2], rho=[1.225, 0.4], precone=[2.5, 0.0, -6.0, 20.0], tilt=[-5.0, 0.0, 8.0], yaw=[0.0, 12.0, -35.0],
    shear=[0.2, 0.0, 0.45], hubHt=[80.0, 120.0], pc=["ztip", "fwd", "aft", "strong", "none"], ps=["ztip", "aft", "strong", "none"],
    tip=[True, False], hub=[True, False], wake=[True, False], usecd=[True, False], U=[9.0, 14.0, 2.5],
    tsr=[7.0, 0.0, 1.5, 3.0, 5.0, 9.0, 12.0, 20.0], pitch=[0.0, -15.0, -4.0, 3.0, 12.0, 88.0], az=[0.0, 30.0, 90.0, 225.0, 361.0],
    chordx=[1.0, 0.15, 2.5],
)
# more values for the orthogonal arrays
MORE = dict(DIMS, blade=DIMS["blade"] + ["odd6", "long26", "r5"], B=[3, 2, 1, 4, 5], rho=[1.225, 0.4, 998.0], mu=[1.81206e-5, 1e-3], precone=DIMS["precone"] + [-2.5, 0.5, -15.0], tilt=DIMS["tilt"] + [3.0, -1.0, 20.0, -14.0],
            yaw=DIMS["yaw"] + [-12.0, 1.0, 50.0], shear=DIMS["shear"] + [0.1, 1.0, -0.1], hubHt=[80.0, 120.0, 66.0, 200.0], pc=DIMS["pc"] + ["wave", "slight", "bump"],
            ps=DIMS["ps"] + ["wave", "slight", "bump"], U=DIMS["U"] + [25.0, 6.0, 11.4, 0.5, 55.0], tsr=DIMS["tsr"] + [2.2, 6.0, 8.0], pitch=DIMS["pitch"] + [-30.0, 45.0, -95.0, 1.0],
            az=DIMS["az"] + [300.0, -50.0, 180.0], chordx=[1.0, 0.15, 2.5, 0.5])
BASES = [dict(pc="ztip", ps="ztip"), dict(blade="slim5", af="multi", B=2, precone=-6.0, tilt=8.0, yaw=12.0, shear=0.45, pc="aft",
                                        ps="fwd", U=14.0, tsr=3.0, pitch=3.0, az=225.0),
         dict(blade="fat3", af="camber", tsr=12.0, pitch=-4.0, pc="fwd", ps="aft", precone=0.0, tilt=0.0, shear=0.0),
         dict(pc="aft", ps="ztip", tsr=0.0, pitch=88.0, U=14.0)]


def parameters(f, kw):
    """(key, index or None, step, setter) of every quantity the analysis differentiates by"""
    n = len(kw["r"])
    R = kw["Rtip"]
    out = []

    def arr(name, key, h):
        for i in range(n):
            def put(t, i=i, name=name):
                v = np.array(kw[name], float)
                v[i] += t
                return {name: v}
            out.append((key, i, h, put))

    def sca(name, key, h):
        out.append((key, None, h, lambda t: {name: kw[name] + t}))

    arr("r", "dr", 1e-4 * R)
    arr("chord", "dchord", 1e-3 * float(np.min(kw["chord"])))
    arr("theta", "dtheta", 1e-2)
    if f["pc"] not in ("none", "zero", "tipeq"):
        arr("precurve", "dprecurve", 1e-4 * R)
        sca("precurveTip", "dprecurveTip", 1e-4 * R)
    if f["ps"] not in ("none", "zero", "tipeq"):
        arr("presweep", "dpresweep", 1e-4 * R)
        sca("presweepTip", "dpresweepTip", 1e-4 * R)
    sca("Rhub", "dRhub", 1e-4 * R)
    sca("Rtip", "dRtip", 1e-4 * R)
    sca("precone", "dprecone", 1e-2)
    sca("tilt", "dtilt", 1e-2)
    sca("yaw", "dyaw", 1e-2)
    sca("hubHt", "dhubHt", 1e-2)
    sca("shearExp", "dshear", 1e-4)
    return out


def compare(what, J, D, err, scale, finer):
    """analytic against numerical; returns the number of entries compared"""
    need(J.shape == D.shape, "%s has shape %s, expected %s" % (what, J.shape, D.shape))
    need(np.all(np.isfinite(J)), "%s is not finite: %s" % (what, J))
    ok = err <= 2e-3 * np.maximum(np.abs(D), scale)
    bad = ok & (np.abs(J - D) > 2e-4 * np.maximum(np.abs(D), scale) + 3 * err)
    for shrink in (8.0, 64.0):  # a kink (a switch between solution branches) within the stencil
        if bad.any():
            D2, err2 = finer(shrink)
            bad &= ~((np.abs(J - D2) <= 2e-4 * np.maximum(np.abs(D2), scale) + 3 * err2) & (err2 <= 2e-3 * np.maximum(np.abs(D2), scale)))
    if bad.any():
        i = np.argmax(np.where(bad, np.abs(J - D), 0))
        raise Violation("%s is %s, finite differences give %s (worst: %g against %g +- %g)" % (
            what, np.round(J, 6).tolist(), np.round(D, 6).tolist(), J.flat[i], D.flat[i], err.flat[i]), what.split(" at ")[0])
    return int(ok.sum())


class Check(core.Base):
    id = "C11"

    def states(self, tier):
        still = core.lattice({q: DIMS[q] for q in ("blade", "af", "B", "precone", "tilt", "yaw", "shear", "pc", "ps", "pitch", "az")}, [dict(b, tsr=0.0, U=0.0) for b in BASES], 1 if tier == "quick" else 2)
        if tier == "quick":
            return core.union(still, core.lattice(DIMS, BASES, 1), *[core.array(DIMS, 2, seed) for seed in range(2)], *[core.array(MORE, 2, seed) for seed in (2, 3)])
        return core.union(still, core.lattice(DIMS, BASES, 2), core.array(DIMS, 3), *[core.array(DIMS, 2, seed) for seed in range(8)],
                          *[core.array(MORE, 2, seed) for seed in range(2, 8)])

    def examine(self, c):
        from ccblade.ccblade import CCBlade

        f = common.full(c)
        kw = rotors.rotor_args(f)
        U, Om, pitch, az = rotors.operating(f)
        if f["tsr"] and not common.ordinary(f, (az,), 0.02):
            raise Outside
        n = len(kw["r"])
        if U == 0:  # no wind, no rotation: no loads, and none with a little of either (they are quadratic)
            with Quiet():
                _, d = CCBlade(derivatives=True, **kw).distributedAeroLoads(U, Om, pitch, az)
            return sum(same("%s %s without wind or rotation" % (name, key), J, np.zeros(np.shape(J)), 0) for name in ("dNp", "dTp") for key, J in d[name].items())

        def loads(over, U=U, Om=Om, pitch=pitch, az=az):
            L, _ = CCBlade(**dict(kw, **over)).distributedAeroLoads(U, Om, pitch, az)
            return np.concatenate([L["Np"], L["Tp"]])

        k = 0
        with Quiet() as q:
            L, d = CCBlade(derivatives=True, **kw).distributedAeroLoads(U, Om, pitch, az)
            mag = max(float(np.max(np.abs(L["Np"]))), float(np.max(np.abs(L["Tp"]))))
            ops = [("dUinf", None, 1e-3 * U, lambda t: loads({}, U=U + t)),
                   ("dpitch", None, 1e-2, lambda t: loads({}, pitch=pitch + t)),
                   ("dazimuth", None, 1e-1, lambda t: loads({}, az=az + t))]
            if Om != 0:
                ops.append(("dOmega", None, 1e-3 * Om, lambda t: loads({}, Om=Om + t)))
            todo = ops + [(key, i, h, (lambda put: lambda t: loads(put(t)))(put)) for key, i, h, put in parameters(f, kw)
                          if key not in ("dprecurveTip", "dpresweepTip")]
            typical = dict(dr=kw["Rtip"], dchord=np.mean(kw["chord"]), dprecurve=kw["Rtip"], dpresweep=kw["Rtip"], dRhub=kw["Rtip"],
                           dRtip=kw["Rtip"], dhubHt=kw["hubHt"], dUinf=U, dOmega=max(Om, 1.0), dshear=1.0)
            for key, i, h, fun in todo:
                D, err = fd.central(fun, h)
                for part, name in ((slice(0, n), "dNp"), (slice(n, 2 * n), "dTp")):
                    need(key in d[name], "%s has no %s" % (name, key))
                    J = np.asarray(d[name][key])
                    need(J.shape == ((n, n) if i is not None else (n, 1)), "%s %s has shape %s" % (name, key, J.shape))
                    col = J[:, i if i is not None else 0]
                    k += compare("%s %s at %s" % (name, key, i), col, D[part], err[part], 0.03 * mag / typical.get(key, 57.0),
                                 lambda s: tuple(x[part] for x in fd.central(fun, h / s)))
        return k
