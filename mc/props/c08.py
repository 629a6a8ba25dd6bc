"""C08: results depend on the inputs only - not on what was computed before; inputs and earlier results stay untouched."""
import copy

import numpy as np

from mc import common, core, rotors
from mc.common import Quiet, need

SETUPS = [
    dict(c=dict(blade="edge4", af="multi", pc="tipeq", ps="aft"), d=False),
    dict(c=dict(blade="mid4", af="one", pc="aft"), d=True),
    dict(c=dict(blade="big3", af="cyl+du40+naca", tilt=0.0, yaw=0.0, shear=0.0), d=False),
    dict(c=dict(blade="edge4", af="sym", pc="tipeq", ps="tipeq", wake=False), d=True),
    dict(c=dict(blade="slim5", af="two", iterRe=3, usecd=False), d=False),
]


def _own_airfoils(c):
    """airfoils of this history only, so that shared state inside them would show"""
    from ccblade.ccblade import CCAirfoil
    import os

    kw = rotors.rotor_args(c)
    made = {}
    names = c["af"].split("+")
    out = []
    r = kw["r"]
    for i in range(len(r)):
        n = names[min(i * len(names) // len(r), len(names) - 1)]
        if n not in made:
            made[n] = (CCAirfoil.initFromAerodynFile(os.path.join(rotors.DATA, rotors._FILES[n]))
                       if n in rotors._FILES else CCAirfoil(*rotors.table(n)))
        out.append(made[n])
    kw["af"] = out
    return kw


class World:
    def __init__(self, setup):
        from ccblade.ccblade import CCBlade

        self.c = common.full(setup["c"])
        self.d = setup["d"]
        self.kw = _own_airfoils(self.c)
        self.CCBlade = CCBlade
        self.given = {k: np.array(v, copy=True) for k, v in self.kw.items() if isinstance(v, np.ndarray)}
        self.rotor = CCBlade(derivatives=self.d, **self.kw)

    # the alphabet of operations
    def op(self, name):
        af = self.kw["af"]
        R = self.rotor
        if name == "loads":
            return R.distributedAeroLoads(9.0, 9.0, 1.0, 30.0)
        if name == "parked":
            return R.distributedAeroLoads(25.0, 0.0, 85.0, 90.0)
        if name == "zeros":  # standing still at zero pitch and azimuth
            return R.distributedAeroLoads(12.0, 0.0, 0.0, 0.0), R.evaluate([15.0], [0.0], [0.0]), R.distributedAeroLoads(8.0, 7.0, 0.0, 0.0)
        if name == "runaway":
            return R.distributedAeroLoads(4.0, 30.0, -12.0, 180.0)
        if name == "total":
            return R.evaluate([9.0], [9.0], [1.0])
        if name == "coef":
            return R.evaluate([8.0, 12.0], [9.0, 7.0], [0.0, 5.0], coefficients=True)
        if name == "other":  # a second rotor built from the same arrays and airfoils
            kw = dict(self.kw, precone=9.0, tilt=11.0, yaw=-20.0, B=2, tiploss=not self.kw["tiploss"])
            return self.CCBlade(derivatives=not self.d and kw["iterRe"] == 1, **kw).evaluate([11.0], [8.0], [2.0])
        if name == "near":  # nearly the same operating point
            return R.distributedAeroLoads(9.0 * (1 + 3e-4), 9.0, 1.0 + 1e-4, 30.0 + 1e-3)
        if name == "twin":  # nearly the same rotor, sharing the airfoils
            kw = dict(self.kw, chord=self.kw["chord"] * (1 + 4e-4), rho=self.kw["rho"] * (1 - 2e-4))
            return self.CCBlade(derivatives=False, **kw).distributedAeroLoads(9.0, 9.0, 1.0, 30.0)
        if name == "point":
            return [(a.evaluate(0.07, 3e6), a.evaluate(0.07, 3.0015e6), a.evaluate(0.07 + 1e-7, 3e6)) for a in af[:3]]
        if name == "point2":  # nearly the same condition
            return [(a.evaluate(0.07 + 1e-7, 3.001e6), a.evaluate(0.07, 3e6, return_cm=True), a.derivatives(0.07, 3.002e6)) for a in af[:3]]
        if name == "section":
            return [(a.evaluate(0.07, 3e6), a.evaluate(-0.3, 4e5, return_cm=True), a.derivatives(0.1, 2e6)) for a in af[:3]]
        if name == "design":
            return [(a.max_eff(2e6), a.awayfromstall(2e6, 3.0)) for a in af[:2]]
        if name == "rebuild":  # construct the same rotor again; keep using the new one
            self.rotor = self.CCBlade(derivatives=self.d, **self.kw)
            return self.rotor.evaluate([7.0], [6.0], [0.0])
        if name == "reuse":  # the caller writes other numbers into the arrays the rotor was built from, and builds later rotors from new ones
            old, self.kw = self.kw, {k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in self.kw.items()}
            for v in old.values():
                if isinstance(v, np.ndarray):
                    v *= 0.6
                    v -= 7.0
            return self.rotor.evaluate([6.0], [8.0], [-1.0])
        if name == "blot":  # the caller writes into results
            U, Om, pitch = np.array([8.0, 12.0]), np.array([9.0, 7.0]), np.array([0.0, 5.0])
            for x in (R.distributedAeroLoads(9.0, 9.0, 1.0, 30.0), R.evaluate(U, Om, pitch, coefficients=True)):
                for v in arrays(x):
                    v[...] = -7.0
            U[:], Om[:], pitch[:] = 3.0, 1.0, 50.0
            return R.distributedAeroLoads(7.0, 8.0, 2.0, 60.0), R.evaluate([7.0], [8.0], [2.0])
        raise KeyError(name)


def arrays(x):
    for v in x.values() if isinstance(x, dict) else x if isinstance(x, (tuple, list)) else ():
        if isinstance(v, np.ndarray) and v.flags.writeable and v.shape:
            yield v
        else:
            yield from arrays(v)


OPS = ("loads", "parked", "runaway", "total", "coef", "other", "section", "design", "rebuild", "near", "twin", "point", "point2", "reuse", "blot", "zeros")


def flat(x, path=""):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from flat(x[k], path + "/" + str(k))
    elif isinstance(x, (tuple, list)):
        for i, v in enumerate(x):
            yield from flat(v, path + "/%d" % i)
    elif x is not None:
        yield path, np.array(x, float, copy=True)


class Check(core.Base):
    id = "C08"
    _fresh = {}

    def states(self, tier):
        use = SETUPS[:3] if tier == "quick" else SETUPS

        def succ(s):
            for o in OPS:
                yield dict(s, history=s["history"] + [o])

        start = [dict(setup=i, history=[]) for i in range(len(use))]
        if tier == "quick":
            return core.bfs(start, succ, 3)
        def rotor_only(s):
            for o in OPS:
                if o not in ("point", "point2", "section", "design", "twin"):
                    yield dict(s, history=s["history"] + [o])

        return core.union(core.bfs(start[:1], succ, 4), core.bfs(start[1:2], rotor_only, 4), core.bfs(start[1:], succ, 3))

    def fresh(self, i, op):
        if (i, op) not in self._fresh:
            self._fresh[i, op] = list(flat(World(SETUPS[i]).op(op)))
        return self._fresh[i, op]

    def examine(self, s):
        i = s["setup"]
        with Quiet():
            w = World(SETUPS[i])
            k = 0
            kept = []
            for j, o in enumerate(s["history"]):
                raw = w.op(o)
                got = list(flat(raw))
                kept.append((j, o, raw, got))
                exp = self.fresh(i, o)
                need([p for p, _ in got] == [p for p, _ in exp], "operation %d (%s) has other outputs than on a new rotor" % (j, o))
                for (p, a), (_, b) in zip(got, exp):
                    need(a.shape == b.shape and np.array_equal(a, b, equal_nan=True),
                         "operation %d (%s) after %s gives %s = %s, a new rotor gives %s" % (j, o, s["history"][:j], p, a, b))
                    k += 1
            for j, o, raw, got in kept:
                for (p, a), (_, b) in zip(flat(raw), got):
                    need(np.array_equal(a, b, equal_nan=True), "the result %s of operation %d (%s) changed afterwards" % (p, j, o))
            for name, v in w.given.items():
                need(np.array_equal(w.kw[name], v), "the input array %s was changed" % name)
        return k
