"""C06: power is torque times speed and the coefficients are the documented normalisations."""
import numpy as np

from mc import common, core, ref, rotors
from mc.common import BASE0, BASE1, BASE2, Quiet, need, same

DIMS = common.without("az", "iterRe", "ps", "tip", "hub", "wake", "usecd", rho=[1.225, 0.4, 998.0, 1.0], tsr=[7.0, 0.0, 1.5, 3.0, 5.0, 9.0, 12.0, -2.0],
                      npts=[1, 2, 3])


class Check(core.Base):
    id = "C06"

    def states(self, tier):
        bases = [dict(BASE0, npts=1), dict({k: v for k, v in BASE1.items() if k != "az"}, npts=2),
                 dict(BASE2, npts=1)]
        w = common.wide("az", "iterRe", "tip", "hub", "wake", "usecd", "mu", tsr=DIMS["tsr"], npts=[1, 2, 3, 4, 25])
        return core.union(core.lattice(DIMS, bases if tier != "quick" else bases[:2], 2 if tier == "quick" else 3),
                          core.array(w, 2 if tier == "quick" else 3), core.array(w, 2, 1))

    def examine(self, c):
        f = common.full(c)
        g = ref.Geometry(**rotors.rotor_args(f))
        U, Om, pitch, _ = rotors.operating(f)
        n = f["npts"]
        U = U * (1 + 0.2 * (np.arange(n) % 7))
        Om = Om * (1 - 0.1 * (np.arange(n) % 9))
        pitch = pitch + np.arange(n) % 11
        with Quiet():
            dim, d0 = rotors.make(f).evaluate(U, Om, pitch)
            out, d1 = rotors.make(f).evaluate(U, Om, pitch, coefficients=True)
        need(not d0 and not d1, "derivatives are returned although not requested")
        q = 0.5 * f["rho"] * U ** 2
        A = np.pi * g.rotorR ** 2
        k = 0
        for name in ("P", "T", "Y", "Z", "Q", "My", "Mz", "Mb"):
            need(np.shape(out[name]) == (n,), "%s has shape %s for %d conditions" % (name, np.shape(out[name]), n))
            k += same("%s with and without coefficients" % name, out[name], dim[name], 1e-12)
        need(not [x for x in dim if x.startswith("C")], "coefficients are returned although not requested")
        k += same("P", out["P"], out["Q"] * Om * np.pi / 30, 1e-12)
        for name in "TYZ":
            k += same("C" + name, out["C" + name], out[name] / (q * A), 1e-11)
        for name in ("Q", "My", "Mz", "Mb"):
            k += same("C" + name, out["C" + name], out[name] / (q * A * g.rotorR), 1e-11)
        k += same("CP", out["CP"], out["P"] / (q * A * U), 1e-11)
        return k
