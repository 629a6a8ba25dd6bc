"""C04: the inflow of every station is the rigid-body kinematics of a sheared wind on a turning, bent blade."""
import numpy as np

from mc import common, core, ref, rotors
from mc.common import BASE0, BASE1, Outside, Quiet, need, same

NULL = dict(af="null")
DIMS = common.without("af", "tip", "hub", "wake", "usecd", "iterRe", "nSector", "rho", "mu", "B", "chordx",
                      wind=["uniform", "profile", "one"], tsr=[7.0, 0.0, 0.05, 1.0, 3.0, 12.0, -4.0],
                      az=[0.0, 17.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 361.0, -50.0, 725.0, -190.0],
                      precone=[2.5, 0.0, -6.0, 20.0, -30.0], tilt=[-5.0, 0.0, 8.0, -20.0, 40.0],
                      yaw=[0.0, 12.0, -35.0, 70.0, 180.0], shear=[0.2, 0.0, 0.45, -0.1, 1.0])


class Check(core.Base):
    id = "C04"

    def states(self, tier):
        bases = [NULL, dict(NULL, **{k: v for k, v in BASE1.items() if k not in ("af", "B")}), dict(NULL, tsr=0.0),
                 dict(NULL, precone=0.0, tilt=0.0, yaw=0.0, shear=0.0)]
        w = dict(common.wide("tip", "hub", "wake", "usecd", "iterRe", "nSector", "rho", "mu", "B", "chordx"), af=["null"],
                 **{k: DIMS[k] for k in ("wind", "tsr", "az", "yaw", "precone", "tilt", "shear")}, pc=common.WIDE["pc"] + ["arch", "fwdeq"], ps=common.WIDE["ps"] + ["arch", "fwdeq"])
        return core.union(core.lattice(DIMS, bases, 2 if tier == "quick" else 3),
                          *[core.array(w, 3 if tier == "quick" else 4, seed) for seed in range(1)])

    def examine(self, c):
        f = common.full(c)
        kw = rotors.rotor_args(f)
        g = ref.Geometry(**kw)
        U, Om, pitch, az = rotors.operating(f)
        if f.get("wind") == "profile":
            U = U * (1 + 0.1 * np.arange(len(g.r)))
        elif f.get("wind") == "one":
            U = np.array([U])
        Vx, Vy = ref.wind(g, U, Om, az, f["hubHt"], f["shear"])
        rotor = rotors.make(f)
        with Quiet() as q:
            L, _ = rotor.distributedAeroLoads(U, Om, pitch, az)
        V = np.hypot(Vx, Vy)
        big = float(np.max(V))
        n = 0
        if Om == 0:
            return same("relative speed", L["W"], V, 1e-9, big)
        # undisturbed flow (a section without forces): the speed is that of the relative wind whatever its direction;
        # the inflow angle exposes the two components where the flow comes from upwind and from ahead
        seen = (np.abs(Vx) > 1e-3 * big) & (np.abs(Vy) > 1e-3 * big)
        ok = seen & (Vx > 0) & (Vy > 0)
        if not seen.any():
            raise Outside
        n += same("relative speed", L["W"][seen], V[seen], 1e-7, big)
        phi = np.deg2rad(L["alpha"]) + g.theta + np.deg2rad(f["pitch"])
        if ok.any():
            n += same("axial inflow", (L["W"] * np.sin(phi))[ok], Vx[ok], 1e-6, big)
            n += same("tangential inflow", (L["W"] * np.cos(phi))[ok], Vy[ok], 1e-6, big)
        return n
