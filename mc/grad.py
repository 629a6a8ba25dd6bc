"""Rotor-level gradients against finite differences (shared by C12 and C13)."""
import numpy as np

from mc import common, core, fd, ref, rotors
from mc.common import Outside, Quiet, Violation, need, same
from mc.props.c11 import BASES, DIMS, MORE, compare, parameters

RDIMS = {k: v for k, v in DIMS.items() if k != "az"}
RDIMS.update(blade=["two2", "fat3", "mid4", "slim5"], nSector=[4, 5, 1], npts=[1, 2], tsr=[7.0, 0.0, 3.0, 9.0, 12.0],
             pitch=[0.0, -4.0, 3.0, 12.0, 88.0], tilt=[-5.0, 0.0, 8.0], shear=[0.2, 0.0, 0.45])
RMORE = {k: v for k, v in MORE.items() if k != "az"}
RMORE.update(blade=RDIMS["blade"] + ["big3", "odd6"], nSector=[4, 5, 1, 8, 6, 11, 24], npts=[1, 2, 3])
RBASES = [{k: v for k, v in dict(b, blade=bl, npts=p).items() if k != "az"}
          for b, bl, p in zip(BASES, ("two2", "fat3", "mid4", "two2"), (2, 1, 1, 1))]


def rotor_states(tier):
    if tier == "quick":
        return core.union(core.lattice(RDIMS, RBASES, 1), core.array(RDIMS, 2), core.array(RMORE, 2, 1))
    return core.union(core.lattice(RDIMS, RBASES, 2), *[core.array(RDIMS, 2, seed) for seed in range(12)],
                          *[core.array(RMORE, 2, seed) for seed in range(1, 6)])


def examine(c, names):
    from ccblade.ccblade import CCBlade

    f = common.full(c)
    npts = f.get("npts", 1)
    kw = rotors.rotor_args(f)
    U0, Om0, pitch0, _ = rotors.operating(f)
    U = np.array([U0, 1.12 * U0, 0.9 * U0][:npts])
    Om = np.array([Om0, 0.95 * Om0, 1.1 * Om0][:npts])
    pitch = np.array([pitch0, pitch0 + 1.5, pitch0 - 2.0][:npts])
    azs = 360.0 * np.arange(max(4, f["nSector"])) / max(4, f["nSector"])
    if f["tsr"] and not common.ordinary(f, azs, 0.02):
        raise Outside
    coef = names[0].startswith("C")

    def values(over, U=U, Om=Om, pitch=pitch):
        out, _ = CCBlade(**dict(kw, **over)).evaluate(U, Om, pitch, coefficients=coef)
        return np.array([out[n] for n in names])  # (names, npts)

    k = 0
    with Quiet():
        out, d = CCBlade(derivatives=True, **kw).evaluate(U, Om, pitch, coefficients=coef)
        base = np.array([out[n] for n in names])
        ops = [("dUinf", "op", 1e-3 * U0, lambda t: values({}, U=U + t)),
               ("dpitch", "op", 1e-2, lambda t: values({}, pitch=pitch + t)),
               ("dOmega", "op", 1e-3 * max(Om0, 1.0), (lambda t: values({}, Om=Om + t)))]
        if Om0 == 0:
            ops.pop()
        todo = ops + [(key, i, h, (lambda put: lambda t: values(put(t)))(put)) for key, i, h, put in parameters(f, kw)]
        # forces against the thrust or side force scale, moments against the largest moment
        kind = np.array([0 if n[-1] in "TYZ" else 2 if n[-1] == "P" else 1 for n in names])
        size = np.array([max(float(np.max(np.abs(base[kind == q]))), 1e-12) for q in kind])
        if not coef:
            R = kw["Rtip"]
            ref_ = 0.5 * kw["rho"] * U0 ** 2 * np.pi * R ** 2 * 1e-3
            size = np.maximum(size, np.array([ref_, ref_ * R, ref_ * U0])[kind])
        else:
            size = np.maximum(size, 1e-3)
        R = kw["Rtip"]
        typical = dict(dr=R, dchord=np.mean(kw["chord"]), dprecurve=R, dpresweep=R, dRhub=R, dRtip=R, dhubHt=kw["hubHt"],
                       dUinf=U0, dOmega=max(Om0, 1.0), dshear=1.0, dprecurveTip=R, dpresweepTip=R)
        n = len(kw["r"])
        # the power is the torque times the rotor speed: exactly so in the derivatives too, also at standstill
        w = Om * np.pi / 30.0
        if not coef:
            for key in d["dQ"]:
                e = np.asarray(d["dQ"][key]) * w[:, None]
                if key == "dOmega":
                    e = e + np.diag(np.asarray(out["Q"]) * np.pi / 30.0)
                k += same("dP %s against the torque" % key, d["dP"][key], e, 1e-9, scale=1e-6 * float(np.max(np.abs(e))) + 1e-300)
        elif Om0 == 0:
            Rr = ref.Geometry(**kw).rotorR
            k += same("dCP dOmega at standstill", np.diag(d["dCP"]["dOmega"]), np.asarray(out["CQ"]) * Rr / U * np.pi / 30.0, 1e-9, scale=1e-12)
        for key, i, h, fun in todo:
            D, err = fd.central(fun, h)
            for m, name in enumerate(names):
                need("d" + name in d, "no derivatives of %s" % name)
                need(key in d["d" + name], "d%s has no %s" % (name, key))
                J = np.asarray(d["d" + name][key])
                if i == "op":
                    need(J.shape == (npts, npts), "d%s %s has shape %s" % (name, key, J.shape))
                    off = J - np.diag(np.diag(J))
                    need(not np.any(off), "d%s %s couples operating conditions" % (name, key))
                    col = np.diag(J)
                elif i is None:
                    need(J.shape == (npts, 1), "d%s %s has shape %s" % (name, key, J.shape))
                    col = J[:, 0]
                else:
                    need(J.shape == (npts, n), "d%s %s has shape %s" % (name, key, J.shape))
                    col = J[:, i]
                k += compare("d%s %s at %s" % (name, key, i), col, D[m], err[m], 0.03 * size[m] / typical.get(key, 57.0),
                             lambda s: tuple(x[m] for x in fd.central(fun, h / s)))
    return k
