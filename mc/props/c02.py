"""C02: reported induction factors and coefficients are those of momentum theory with the enabled terms."""
import numpy as np

from mc import common, core, roots, rotors
from mc.common import BASE0, BASE1, BASE2, BASE3, Outside, same
from mc.props.c01 import residual, undragged, _product


class Check(core.Base):
    id = "C02"

    def states(self, tier):
        d = common.without("nSector", "tip", "hub", "wake", "usecd")
        cross = [dict(b) for b in _product(dict(tip=[True, False], hub=[True, False], wake=[True, False],
                                                usecd=[True, False]))]
        if tier == "quick":
            return core.union(core.lattice(d, cross, 1), core.lattice(d, [BASE0, BASE1, BASE2], 2), core.array(common.wide("nSector"), 3),
                              roots.states(3))
        return core.union(core.lattice(d, cross, 2), core.lattice(d, [BASE0, BASE1, BASE2, BASE3], 3),
                          *[core.array(common.wide("nSector"), 3, seed) for seed in range(6)],
                          *[roots.states(3, seed) for seed in range(10)])

    def examine(self, c):
        if "phi" in c:
            d = roots.build(c)
            if d is None:
                raise Outside
            loads, warned = roots.solve(d)
            if undragged(d["f"], d["g"], d["Vx"], d["Vy"], warned, [d["af"]] * 3, 0.0):
                raise Outside
            return self.compare(d["f"], d["g"], d["Vx"], d["Vy"], [d["af"]] * 3, 0.0, loads)
        f = common.full(c)
        g, Vx, Vy = common.inflow(f)
        if min(Vx.min(), Vy.min()) <= 1e-3 * f["U"]:
            raise Outside
        _, loads, _, warned, _ = common.distributed(f)
        if undragged(f, g, Vx, Vy, warned):
            raise Outside
        return self.compare(f, g, Vx, Vy, rotors.rotor_args(f)["af"], np.deg2rad(f["pitch"]), loads)

    def compare(self, f, g, Vx, Vy, af, pitch, loads):
        phi = np.deg2rad(loads["alpha"]) + g.theta + pitch
        n = 0
        for i in range(len(phi)):
            lo, mid, hi = (residual(f, g, af[i], i, phi[i] + s, Vx[i], Vy[i], pitch)[1:] for s in (-1e-12, 0, 1e-12))
            for k, name in enumerate(("a", "ap", "Cl", "Cd")):
                if abs(hi[k] - lo[k]) > 1e-4 * (1 + abs(mid[k])):  # next to a pole: not resolved by the angle
                    continue
                n += same("%s of station %d" % (name, i), loads[name][i], mid[k], 1e-6, scale=1e-3,
                          atol=1e-9 + 10 * abs(hi[k] - lo[k]))
        return n
