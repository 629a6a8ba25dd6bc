"""C36: any object with the airfoil interface serves as an airfoil."""
import numpy as np

from mc import common, core, rotors
from mc.common import BASE0, BASE1, BASE2, Outside, Quiet, need, same

DIMS = common.without("rho", "mu", "hubHt", "nSector", tsr=[7.0, 0.0, 1.5, 3.0, 9.0, 20.0], iterRe=[1, 3], foil=["floats", "list", "array", "numpy", "own", "partly", "one"],
                      calls=["loads", "totals", "coefficients", "inverse"], d=[False, True], again=[False, True])


class Plain:
    """nothing but the documented interface"""

    __slots__ = ("_af", "_form")

    def __init__(self, af, form):
        self._af, self._form = af, form

    def evaluate(self, alpha, Re):
        cl, cd = self._af.evaluate(alpha, Re)
        return {"list": lambda: [float(cl), float(cd)], "array": lambda: np.array([float(cl), float(cd)]), "numpy": lambda: (np.float64(cl), np.float64(cd))}.get(
            self._form, lambda: (float(cl), float(cd)))()


class Smooth(Plain):
    __slots__ = ()

    def derivatives(self, alpha, Re):
        d = [float(v) for v in self._af.derivatives(alpha, Re)]
        return {"list": lambda: d, "array": lambda: np.array(d)}.get(self._form, lambda: tuple(d))()


class Callable:
    """an airfoil that keeps no table at all: functions and constants"""

    def __init__(self, af, d):
        self.evaluate = lambda alpha, Re: tuple(float(v) for v in af.evaluate(alpha, Re))
        if d:
            self.derivatives = lambda alpha, Re: tuple(float(v) for v in af.derivatives(alpha, Re))


class Check(core.Base):
    id = "C36"

    def states(self, tier):
        rest = dict(iterRe=1, foil="floats", calls="loads", d=False, again=False)
        bases = [dict(b, **dict(rest, **v)) for b, v in ((BASE0, {}), (BASE1, dict(calls="totals", d=True)), (BASE2, dict(foil="own")), (dict(tilt=0.0, yaw=0.0, shear=0.0), dict(calls="coefficients", foil="partly", d=True)))]
        w = common.wide("rho", "mu", "hubHt", **{k: DIMS[k] for k in ("tsr", "iterRe", "foil", "calls", "d", "again")})
        if tier == "quick":
            return core.union(core.lattice(DIMS, bases, 1), core.array(DIMS, 2, 1, bases[0]), core.array(w, 2))
        return core.union(core.lattice(DIMS, bases, 2), core.array(DIMS, 3, 1, bases[0]), core.array(w, 3))

    def wrap(self, c, af):
        make = lambda a: Callable(a, c["d"]) if c["foil"] == "own" else (Smooth if c["d"] else Plain)(a, c["foil"])
        if c["foil"] == "one":  # the same object at all stations with the same section
            done = {}
            return [done.setdefault(id(a), make(a)) for a in af]
        if c["foil"] == "partly":
            return [make(a) if i % 2 else a for i, a in enumerate(af)]
        return [make(a) for a in af]

    def run(self, c, f, rotor, op):
        U, Om, pitch, az = op
        if c["calls"] == "loads":
            return rotor.distributedAeroLoads(U, Om, pitch, az)
        if c["calls"] == "inverse":
            n = len(rotor.r)
            rotor.inverse_analysis = True
            rotor.alpha, rotor.cl, rotor.cd = np.full(n, 0.1), np.full(n, 0.9), np.full(n, 0.012)
            x = rotor.distributedAeroLoads(U, Om, pitch, az)[0]
            rotor.inverse_analysis = False
            return dict(x, theta=np.array(rotor.theta)), rotor.distributedAeroLoads(U, Om, pitch, az)[1]
        return rotor.evaluate([U, 1.1 * U], [Om, Om], [pitch, pitch], coefficients=c["calls"] == "coefficients")

    def examine(self, c):
        from ccblade.ccblade import CCBlade

        f = common.full(c)
        op = rotors.operating(f)
        if f["tsr"] and not common.ordinary(f, (op[3], 0.0, 90.0, 180.0, 270.0), 1e-3) or c["d"] and (f["iterRe"] > 1 or c["calls"] == "inverse") or c["calls"] == "inverse" and not f["tsr"]:
            raise Outside
        kw = rotors.rotor_args(f)
        with Quiet() as q:
            A = CCBlade(derivatives=c["d"], **dict(kw, af=self.wrap(c, kw["af"])))
            B = CCBlade(derivatives=c["d"], **kw)
            if c["again"]:
                A.distributedAeroLoads(op[0] * 1.2, op[1], op[2] + 2.0, 40.0)
            (got, dgot), (exp, dexp) = self.run(c, f, A, op), self.run(c, f, B, op)
        if any("check input" in w for w in q.text()):  # no solution (sections that fill more than the annulus, or no drag in the induction)
            raise Outside
        need(set(got) == set(exp) and set(dgot) == set(dexp), "other outputs")
        k = sum(same("%s with an airfoil of the user" % n, got[n], exp[n], 1e-10, 1e-3 * max(1.0, float(np.max(np.abs(exp[n]))))) for n in exp if n not in ("W",) or c["calls"] == "loads")
        for n in dexp:
            need(set(dgot[n]) == set(dexp[n]), "other derivatives of %s" % n)
            k += sum(same("%s %s with an airfoil of the user" % (n, m), dgot[n][m], dexp[n][m], 1e-9, max(1e-6, float(np.max(np.abs(dexp[n][m]))))) for m in dexp[n])
        return k
