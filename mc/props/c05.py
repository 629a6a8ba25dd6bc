"""C05: rotor totals are the azimuthal averages of the integrated sectional loads."""
import numpy as np

from mc import common, core, ref, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, Violation, need, same

DIMS = common.without("az", "rho", "mu", "iterRe", nSector=[4, 1, 3, 5, 6, 8, 12],
                      tsr=[7.0, 0.0, 1.5, 3.0, 5.0, 9.0, 12.0], pitch=[0.0, -4.0, 12.0, 88.0])


def sector_average(c, rotor, g, U, Om, pitch):
    """single-blade hub-frame loads averaged over equally spaced azimuths, from the sectional loads"""
    nsec = max(4, c["nSector"])
    tot = np.zeros(8)
    alt = np.zeros(2)
    for az in 360.0 * np.arange(nsec) / nsec:
        L, _ = rotor.distributedAeroLoads(U, Om, pitch, az)
        T, Y, Z, Q, M = ref.rotor_integrals(g, L["Np"], L["Tp"])
        t = np.deg2rad(az)
        R = ref.rot_x(t).T  # azimuth -> hub frame
        F = R @ np.array([T, -Y, Z])  # the tangential load acts in the direction of motion, -y
        m = R @ np.array([Q, M, 0.0])
        tot += np.array([F[0], F[1], F[2], m[0], m[1], m[2], M, 0]) / nsec
        G = R @ np.array([T, Y, Z])
        alt += G[1:] / nsec
    B = c["B"]
    tot[:6] *= B
    tot[7] = tot[3] * Om * np.pi / 30
    return tot, alt * B


class Check(core.Base):
    id = "C05"

    def states(self, tier):
        bases = [BASE0, {k: v for k, v in BASE1.items() if k != "az"}, dict(tilt=0.0, yaw=0.0, shear=0.0),
                 dict(BASE2, tilt=8.0, shear=0.45)]
        w = common.wide("az", "rho", "mu", "iterRe", nSector=DIMS["nSector"] + [24, 36], tsr=DIMS["tsr"], pitch=DIMS["pitch"],
                        tilt=[-5.0, 0.0, 0.0, 8.0, -20.0], yaw=[0.0, 12.0, 0.0, -35.0], shear=[0.2, 0.0, 0.0, 0.45], pc=common.WIDE["pc"] + ["arch", "fwdeq"], ps=common.WIDE["ps"] + ["arch", "fwdeq"])
        return core.union(core.lattice(DIMS, bases if tier != "quick" else bases[:3], 2 if tier == "quick" else 3),
                          core.array(w, 2 if tier == "quick" else 3), core.array(w, 2, 1))

    def examine(self, c):
        f = common.full(c)
        kw = rotors.rotor_args(f)
        g = ref.Geometry(**kw)
        U, Om, pitch, _ = rotors.operating(f)
        rotor = rotors.make(f)
        with Quiet():
            out, _ = rotor.evaluate([U], [Om], [pitch])
            tot, alt = sector_average(f, rotors.make(f), g, U, Om, pitch)
        sF = float(np.max(np.abs(tot[:3]))) * 1e-2 + 1e-3
        sM = float(np.max(np.abs(tot[3:7]))) * 1e-2 + 1e-3
        for name, i, s in (("T", 0, sF), ("Q", 3, sM), ("My", 4, sM), ("Mz", 5, sM), ("Mb", 6, sM),
                           ("P", 7, sM * max(1, abs(Om)))):
            v = out[name]
            need(np.shape(v) == (1,), "%s has shape %s for one condition" % (name, np.shape(v)))
            same(name, v[0], tot[i], 1e-7, s)
        yz = np.array([out["Y"][0], out["Z"][0]])
        if not common.close(yz, tot[1:3], 1e-7, sF):
            if common.close(yz, alt, 1e-7, sF):
                raise Violation("Y, Z are %s, expected %s: the tangential load enters with the wrong sign" % (
                    yz.tolist(), tot[1:3].tolist()), "tangential-sign")
            raise Violation("Y, Z are %s, expected %s" % (yz.tolist(), tot[1:3].tolist()), "YZ")
        return 8
