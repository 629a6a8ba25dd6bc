"""C31: inverse analysis - twist for wanted angles of attack."""
import numpy as np

from mc import common, core, ref, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, need, same
from mc.props.c01 import residual, solved

WANT = {"five": lambda x: 5 + 0 * x, "taper": lambda x: 12 - 9 * x, "down": lambda x: -3 + 2 * x, "zero": lambda x: 0 * x, "deep": lambda x: 48 - 20 * x, "low": lambda x: -16 - 10 * x, "stall": lambda x: 18 + 0 * x,
        "alternating": lambda x: np.where(np.arange(len(x)) % 2, 8.0, 2.0)}
COEF = ["airfoil", "given", "lift only", "none"]


class Fixed:
    def __init__(self, cl, cd):
        self.cl, self.cd = cl, cd

    def evaluate(self, alpha, Re):
        return self.cl, self.cd


class Check(core.Base):
    id = "C31"

    def states(self, tier):
        d = common.without("nSector", "rho", "mu", "iterRe", want=list(WANT), coef=COEF, start=[0, 1], call=["loads", "evaluate"])
        d["tsr"] = [7.0, 1.5, 3.0, 5.0, 9.0, 12.0, 0.0]
        bases = [dict(b, want="five", coef="airfoil", start=0, call="loads") for b in (BASE0, BASE1, BASE2)]
        w = common.wide("nSector", "rho", "mu", "iterRe", want=list(WANT), coef=COEF, start=[0, 1], call=["loads", "evaluate"], tsr=d["tsr"])
        return core.union(core.lattice(d, bases[:2] if tier == "quick" else bases, 2 if tier == "quick" else 3),
                          core.array(w, 2 if tier == "quick" else 3, 1), *([core.array(w, 2, k) for k in (2, 3, 4, 5)]))

    def examine(self, c):
        f = common.full(c)
        if f["call"] == "evaluate":
            f.update(tilt=0.0, yaw=0.0, shear=0.0)
        g, Vx, Vy = common.inflow(f)
        parked = f["tsr"] == 0
        if not parked and min(Vx.min(), Vy.min()) <= 1e-3 * f["U"] or parked and Vx.min() <= 0:
            raise Outside
        U, Om, pitch, az = rotors.operating(f)
        kw = rotors.rotor_args(f)
        n = len(kw["r"])
        x = np.asarray(kw["r"]) / kw["Rtip"]
        alpha = np.radians(WANT[f["want"]](x))
        if f["coef"] == "airfoil":
            if f["af"] not in ("one", "sym", "camber", "cyl", "naca"):
                raise Outside
            pairs = [a.evaluate(t, 1e6) for a, t in zip(kw["af"], alpha)]
            cl, cd = (np.array([float(q[i]) for q in pairs]) for i in (0, 1))
        else:
            cl, cd = (np.full(n, v) for v in dict(zip(COEF[1:], ((0.9, 0.015), (1.2, 0.0), (0.0, 0.02))))[f["coef"]])
        rotor = rotors.make(f)
        with Quiet() as q:
            if f["start"]:
                rotor.distributedAeroLoads(1.3 * U, Om, pitch + 3, az + 50)
            rotor.inverse_analysis = True
            mine = alpha.copy(), cl.copy(), cd.copy()
            rotor.alpha, rotor.cl, rotor.cd = mine
            if f["call"] == "loads":
                loads, _ = rotor.distributedAeroLoads(U, Om, pitch, az)
            else:
                out, _ = rotor.evaluate([U], [Om], [pitch])
                loads = None
        need(not any("check input" in w for w in q.text()), "the solver gave up")
        k = sum(same("wanted values", a, b, 0) for a, b in zip(mine, (alpha, cl, cd)))
        held = rotor.theta
        theta = np.array(held, float)
        need(theta.shape == (n,) and np.all(np.isfinite(theta)), "twist is %s" % theta)
        p = np.deg2rad(pitch)
        phi = theta + p + alpha
        for i in range(n):
            if parked:
                k += same("inflow angle of a parked blade", phi[i], np.pi / 2, 1e-9)
            else:
                g.theta[i] = theta[i]
                need(-np.pi / 4 - 1e-9 <= phi[i] <= np.pi + 1e-9, "station %d: inflow angle %g" % (i, phi[i]))
                solved(f, g, Fixed(cl[i], cd[i]), i, phi[i], Vx[i], Vy[i], p)
                k += 1
        if loads is not None:
            k += same("angle of attack", loads["alpha"], np.degrees(alpha), 0, 0, 1e-7)
            if f["coef"] == "airfoil":
                k += same("lift", loads["Cl"], cl, 1e-7, 1e-2) + same("drag", loads["Cd"], cd, 1e-7, 1e-2)
                k += same("normal load", loads["Np"], 0.5 * f["rho"] * loads["W"] ** 2 * kw["chord"] * (cl * np.cos(phi) + cd * np.sin(phi)), 1e-7, np.abs(loads["Np"]).max())
                k += same("tangential load", loads["Tp"], 0.5 * f["rho"] * loads["W"] ** 2 * kw["chord"] * (cl * np.sin(phi) - cd * np.cos(phi)), 1e-7, np.abs(loads["Np"]).max())
        # the twist that was found is an ordinary twist
        rotor.inverse_analysis = True
        rotor.alpha = alpha + 0.02
        with Quiet():
            rotor.distributedAeroLoads(U, Om, pitch + 1.0, az)
        need(np.array_equal(held, theta), "a later inverse analysis changes the twist found before")
        rotor.theta = held
        rotor.inverse_analysis = False
        with Quiet():
            got, _ = rotor.distributedAeroLoads(U, Om, pitch, az)
            exp, _ = rotors.make(f, theta=np.degrees(theta)).distributedAeroLoads(U, Om, pitch, az)
        for name in common.LOADS:
            k += same("%s with the twist found" % name, got[name], exp[name], 1e-6, max(1e-6, np.abs(exp[name]).max()))
        return k
