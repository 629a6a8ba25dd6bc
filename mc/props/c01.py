"""C01: the blade element momentum equations are always solved."""
import numpy as np

from mc import common, core, ref, roots, rotors
from mc.common import BASE0, BASE1, BASE2, BASE3, Outside, need


class Check(core.Base):
    id = "C01"

    def states(self, tier):
        d = common.without("nSector", "rho", "mu")
        opt = dict(tip=[True, False], hub=[True, False], wake=[True, False], usecd=[True, False],
                   tsr=[0.3, 1.5, 3, 5, 7, 9, 12, 20], pitch=[-30, -15, -8, -4, 0, 3, 12, 45, 88],
                   af=["one", "sym", "camber", "cyl", "naca", "multi"], blade=["mid4", "fat3", "slim5"])
        cross = [dict(b) for b in _product(dict(tip=[True, False], hub=[True, False], wake=[True, False],
                                                usecd=[True, False]))]
        hard = dict(opt, blade=["mid4", "fat3", "slim5", "odd6"], pitch=opt["pitch"] + [-45], chordx=[1.0, 3.0], B=[3, 6], shear=[0.0],
                    tilt=[0.0], precone=[0.0])
        w = common.wide("nSector", "rho", "mu")
        if tier == "quick":
            return core.union(core.lattice(d, [BASE0, BASE1], 2), core.lattice(opt, cross, 2), core.array(hard, 3), core.array(w, 3),
                              roots.states(3))
        return core.union(core.lattice(d, [BASE0, BASE1, BASE2, BASE3], 3), core.lattice(opt, cross, 3), core.array(hard, 4),
                          *[core.array(w, 3, seed) for seed in range(8)], *[roots.states(3, seed) for seed in range(10)])

    def designed(self, c):
        d = roots.build(c)
        if d is None:
            raise Outside
        loads, warned = roots.solve(d)
        f, g = d["f"], d["g"]
        if undragged(f, g, d["Vx"], d["Vy"], warned, [d["af"]] * 3, 0.0):
            raise Outside
        for k in common.LOADS:
            need(np.all(np.isfinite(loads[k])), "%s is not finite: %s" % (k, loads[k]))
        need(not any("check input" in w for w in warned), "the solver gave up: %s" % warned[:1])
        phi = np.deg2rad(loads["alpha"]) + g.theta
        for i in range(3):
            need(-np.pi / 4 - 1e-9 <= phi[i] <= np.pi + 1e-9 and abs(phi[i]) > 1e-7,
                 "station %d: inflow angle %g is outside the admissible range" % (i, phi[i]))
            solved(f, g, d["af"], i, phi[i], d["Vx"][i], d["Vy"][i], 0.0)
        return 3

    def examine(self, c):
        if "phi" in c:
            return self.designed(c)
        f = common.full(c)
        g, Vx, Vy = common.inflow(f)
        if min(Vx.min(), Vy.min()) <= 1e-3 * f["U"]:
            raise Outside
        rotor, loads, _, warned, printed = common.distributed(f)
        if undragged(f, g, Vx, Vy, warned):
            raise Outside
        for k in common.LOADS:
            need(np.all(np.isfinite(loads[k])), "%s is not finite: %s" % (k, loads[k]))
        need(not any("check input" in w for w in warned), "the solver gave up: %s" % warned[:1])
        theta, pitch = g.theta, np.deg2rad(f["pitch"])
        af = rotors.rotor_args(f)["af"]
        phi = np.deg2rad(loads["alpha"]) + theta + pitch
        for i in range(len(phi)):
            need(-np.pi / 4 - 1e-9 <= phi[i] <= np.pi + 1e-9 and abs(phi[i]) > 1e-7,
                 "station %d: inflow angle %g is outside the admissible range" % (i, phi[i]))
            solved(f, g, af[i], i, phi[i], Vx[i], Vy[i], pitch)
        return len(phi)


def undragged(f, g, Vx, Vy, warned, af=None, pitch=None):
    """Without drag in the induction the analysis is documented to fail at certain points: the residual has the same
    sign at both ends of every interval.  The same goes for sections that fill more than the whole annulus (local
    solidity above one), which is no rotor.  True if the solver gave up for this reason."""
    if not any("check input" in w for w in warned):
        return False
    dense = f["B"] * g.chord > 2 * np.pi * g.r
    if f["usecd"] and not np.any(dense):
        return False
    af = rotors.rotor_args(f)["af"] if af is None else af
    pitch, e, h = np.deg2rad(f["pitch"]) if pitch is None else pitch, 1e-6, np.pi / 2
    for i in range(len(g.r)):
        if f["usecd"] and not dense[i]:
            continue
        R = {x: residual(f, g, af[i], i, x, Vx[i], Vy[i], pitch)[0] for x in (e, h, -np.pi / 4, -e, np.pi - e)}
        if R[e] * R[h] > 0 and not (R[-np.pi / 4] < 0 and R[-e] > 0) and R[h] * R[np.pi - e] > 0:
            return True
    return False


def residual(f, g, af, i, phi, Vx, Vy, pitch):
    """the reference residual, with the Reynolds number iteration of the analysis"""
    a = ap = 0.0
    alpha = phi - g.theta[i] - pitch
    for _ in range(f["iterRe"]):
        W = speed(phi, a, ap, Vx, Vy)
        Re = f["rho"] * W * g.chord[i] / f["mu"]
        cl, cd = (float(v) for v in af.evaluate(alpha, Re))
        R, a, ap, F, k, kp = ref.induction(g.r[i], g.chord[i], g.Rhub, g.Rtip, phi, cl, cd, f["B"], Vx, Vy, f["tip"],
                                           f["hub"], f["wake"], f["usecd"])
    return R, a, ap, cl, cd


def speed(phi, a, ap, Vx, Vy):
    if abs(a) > 10:
        return Vy * (1 + ap) / np.cos(phi)
    if abs(ap) > 10:
        return Vx * (1 - a) / np.sin(phi)
    return np.hypot(Vx * (1 - a), Vy * (1 + ap))


def solved(f, g, af, i, phi, Vx, Vy, pitch):
    """the residual changes sign (or vanishes) at phi, and does so continuously: not at a pole"""
    R0 = residual(f, g, af, i, phi, Vx, Vy, pitch)[0]
    scale = 1 + Vx / Vy
    if abs(R0) <= 1e-6 * scale:
        return
    h = 1e-7
    Ra, Rb = (residual(f, g, af, i, phi + s * h, Vx, Vy, pitch)[0] for s in (-1, 1))
    if Ra * Rb < 0:
        # steep but continuous crossing: the slope accounts for the size of the residual
        R2a, R2b = (residual(f, g, af, i, phi + s * h / 10, Vx, Vy, pitch)[0] for s in (-1, 1))
        if R2a * R2b < 0 and abs(R2a - R2b) <= 0.5 * abs(Ra - Rb) + 1e-9:
            return
        # iterating on the Reynolds number makes the residual itself jump; a pole would grow as the distance shrinks
        if f["iterRe"] > 1 and R2a * R2b < 0 and max(abs(R2a), abs(R2b)) <= 1.05 * max(abs(Ra), abs(Rb)) <= scale:
            return
    raise core.Violation("station %d: the residual at the returned inflow angle %.9g is %.3g (%.3g, %.3g beside it): "
                         "not a solution" % (i, phi, R0, Ra, Rb))


def _product(d):
    out = [{}]
    for k, vs in d.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out
