"""C03: sectional outputs are mutually consistent, rotating or parked."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, BASE3, Outside, Quiet, need, same
from mc.props.c01 import undragged
from mc.props.c01 import speed


class Check(core.Base):
    id = "C03"

    def states(self, tier):
        d = common.without("nSector")
        p = common.without("nSector", "iterRe", "tip", "hub", "wake", "usecd", tsr=[0.0], tilt=[0.0, -5.0, 8.0],
                           yaw=[0.0, 12.0, -35.0, 75.0])
        parked = [dict(b, tsr=0.0) for b in (BASE0, dict(tilt=0.0, precone=0.0, pc="none", shear=0.0), BASE1, BASE2)]
        k = 2 if tier == "quick" else 3
        w = common.wide("nSector", tsr=common.WIDE["tsr"] + [0.0, 0.0, 0.0, 0.0])
        still = {q: p[q] for q in ("blade", "af", "B", "precone", "tilt", "yaw", "shear", "pc", "ps", "pitch", "az") if q in p}
        return core.union(core.lattice(d, [BASE0, BASE1, BASE2], k), core.lattice(p, parked, k), core.lattice(still, [dict(b, tsr=0.0, U=0.0) for b in parked[:3]], k),
                          *[core.array(w, 3, seed) for seed in range(1 if tier == "quick" else 6)])

    def examine(self, c):
        f = common.full(c)
        if f["U"] == 0:
            _, L, _, _, _ = common.distributed(f)
            return sum(same("%s without wind or rotation" % q, v, np.zeros(len(L["Np"])), 0) for q, v in L.items())
        g, Vx, Vy = common.inflow(f)
        parked = f["tsr"] == 0
        if min(Vx.min(), 1 if parked else Vy.min()) <= 1e-3 * f["U"]:
            raise Outside
        _, L, _, warned, _ = common.distributed(f)
        if not parked and undragged(f, g, Vx, Vy, warned):
            raise Outside
        pitch, chord = np.deg2rad(f["pitch"]), g.chord
        alpha = np.deg2rad(L["alpha"])
        phi = alpha + g.theta + pitch
        n = 0
        af = rotors.rotor_args(f)["af"]
        if parked:
            same("inflow angle of a parked blade", phi, np.full(len(phi), np.pi / 2), 1e-12, atol=1e-12)
            same("axial induction of a parked blade", L["a"], 0 * phi, 0)
            same("tangential induction of a parked blade", L["ap"], 0 * phi, 0)
            same("speed", L["W"], np.hypot(Vx, Vy), 1e-9, 1e-6)
            ref = [af[i].evaluate(alpha[i], f["rho"] * L["W"][i] * chord[i] / f["mu"]) for i in range(len(phi))]
            same("Cl", L["Cl"], [float(x[0]) for x in ref], 1e-8, 1e-6)
            same("Cd", L["Cd"], [float(x[1]) for x in ref], 1e-8, 1e-6)
            n += 6
        else:
            W = np.array([speed(p, a, ap, x, y) for p, a, ap, x, y in zip(phi, L["a"], L["ap"], Vx, Vy)])
            n += same("local speed", L["W"], W, 1e-7, 1e-6)
        n += same("Reynolds number", L["Re"], f["rho"] * L["W"] * chord / f["mu"], 1e-9)
        cn = L["Cl"] * np.cos(phi) + L["Cd"] * np.sin(phi)
        ct = L["Cl"] * np.sin(phi) - L["Cd"] * np.cos(phi)
        n += same("Cn", L["Cn"], cn, 1e-9, 1e-4)
        n += same("Ct", L["Ct"], ct, 1e-9, 1e-4)
        q = 0.5 * f["rho"] * L["W"] ** 2
        n += same("normal load", L["Np"], cn * q * chord, 1e-9, float(np.max(q * chord)) * 1e-3)
        n += same("tangential load", L["Tp"], ct * q * chord, 1e-9, float(np.max(q * chord)) * 1e-3)
        return n
