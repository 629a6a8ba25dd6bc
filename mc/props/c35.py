"""C35: optional arguments, their order and their defaults, and the spelling of sequences."""
import itertools

import numpy as np

from mc import core, prep, rotors, tables
from mc.common import Quiet, need, same

N = 20.0
# argument: (another value, default), in the order of the interface
ROTOR = [("B", 2, 3), ("rho", 1.1, 1.225), ("mu", 4e-5, 1.81206e-5), ("precone", 3, 0.0), ("tilt", -4, 0.0), ("yaw", 10, 0.0), ("shearExp", 0.3, 0.2), ("hubHt", 95, 80.0),
         ("nSector", 5, 8), ("precurve", [0, 1, 1, 2], None), ("precurveTip", 3, 0.0), ("presweep", [0, 0, 1, 1], None), ("presweepTip", 2, 0.0), ("tiploss", False, True),
         ("hubloss", False, True), ("wakerotation", False, True), ("usecd", False, True), ("iterRe", 3, 1), ("derivatives", True, False)]
MUST = [("r", [4, 9, 15, 18]), ("chord", [2, 2, 1, 1]), ("theta", [14, 7, 2, 0]), ("af", None), ("Rhub", 1), ("Rtip", 20)]
EDGE = [("r", [1, 9, 15, 20])] + MUST[1:]  # stations on the hub and on the tip
STALL = [("alpha_max_corr", 24, 30), ("alpha_linear_min", -3, -5), ("alpha_linear_max", 4, 5)]
STALL_MUST = [("r_over_R", 0.4), ("chord_over_r", 0.2), ("tsr", 6)]
EXT = [("AR", 14, None), ("cdmin", 0.04, 0.001), ("nalpha", 11, 15)]
LIN = [("alpha_linear_min", -3, -5), ("alpha_linear_max", 4, 5)]
FOIL = [("cm", 0, []), ("x", [1.0, 0.5, 0.0, 0.5, 1.0], []), ("y", [0.0, 0.07, 0.0, -0.05, 0.0], []), ("AFName", "naca", "DEFAULTAF")]
BOX = ["floats", "array", "list", "tuple", "whole array", "view", "locked"]


def box(how, v):
    """a sequence in some spelling"""
    a = np.array(v, float)
    if how in ("floats", "array"):
        return a
    if how == "list":
        return list(v)
    if how == "tuple":
        return tuple(v)
    if how == "whole array":
        return np.array(v) if np.array_equal(np.array(v), np.round(v)) and np.array(v).dtype.kind == "i" else a
    if how == "view":
        b = np.full(2 * a.shape[0], -7.0) if a.ndim == 1 else np.full((2 * a.shape[0], a.shape[1]), -7.0)
        b[::2] = a
        return b[::2]
    b = a.copy()
    b.flags.writeable = False
    return b


def number(how, v):
    return float(v) if how == "floats" and isinstance(v, int) and not isinstance(v, bool) else v


def spell(spec, how, v):
    return box(how, v) if isinstance(v, (list, np.ndarray)) else v


def chosen(spec, pos, out):
    """which of the optional arguments are given by position, by name, and left out"""
    names = [s[0] for s in spec]
    return names[:pos], [n for n in names[pos:] if n not in out], [n for n in names[pos:] if n in out]


# what is built from sequences
LATER = dict(polar=["alpha", "cl", "cd", "cm"], airfoil=["polars"], table=["alpha", "Re", "cl", "cd", "cm"], vector=["x", "y", "z"], rotor=["r", "chord", "theta", "precurve", "presweep"])


class Check(core.Base):
    id = "C35"

    def states(self, tier):
        def subsets(names, k):
            for q in range(min(k, len(names)) + 1):
                for s in itertools.combinations(names, q):
                    yield list(s)
                    if len(names) - q > k:
                        yield [n for n in names if n not in s]

        def gen():
            for kind, spec in (("rotor", ROTOR), ("stall", STALL), ("airfoil stall", STALL), ("extrapolate", EXT), ("airfoil extrapolate", EXT[:2]), ("unsteady", LIN), ("blend", []), ("airfoil blend", []), ("grid", []), ("airfoil grid", []), ("foil", FOIL)):
                names = [s[0] for s in spec]
                for pos in range(len(names) + 1):
                    k = len(names) if kind != "rotor" else 2 if tier == "quick" else 4 if pos == 0 else 3
                    for data, out in itertools.product(("camber",) if kind in ("rotor", "foil") else ("camber", "flat") if "stall" in kind else ("camber", "cylinder", "flat"), subsets(names[pos:], k)):
                        yield dict(kind=kind, pos=pos, out=out, box="array", edge=False, data=data)
                        if len(out) < 2 and pos in (0, len(names)) or kind not in ("rotor",):
                            for b in BOX[2:]:
                                for edge in (False, True) if kind == "rotor" else (False,):
                                    yield dict(kind=kind, pos=pos, out=out, box=b, edge=edge, data=data)
            for thing in LATER:
                for m in range(1, 2 ** len(LATER[thing])):
                    for b in ("array", "list", "whole array", "view"):
                        yield dict(kind="later", pos=0, out=[], box=b, thing=thing, which=[n for j, n in enumerate(LATER[thing]) if m >> j & 1])
            for b in BOX:
                for named in (False, True):
                    for co in (None, False, True):
                        yield dict(kind="evaluate", pos=int(not named), out=[] if co is not None else ["coefficients"], box=b, co=co)

        def numbered():
            n = 0
            for s in gen():
                n += 1
                yield s, len(s["out"]) + (s["pos"] > 0) + (s["box"] != "array")
            return n

        return numbered()

    def call(self, fun, s, must, spec, over=()):
        """(result as spelled in the state, result with every argument explicit and by name)"""
        value = {n: v for n, v, _ in spec}
        value.update(over)
        byp, byn, out = chosen(spec, s["pos"], s["out"])
        first = [spell(None, s["box"], v) for _, v in must]
        args = first + [spell(None, s["box"], value[n]) for n in byp]
        kw = {n: spell(None, s["box"], value[n]) for n in byn}
        if s["pos"] == 0 and s["out"]:  # everything by name
            kw.update({n: a for (n, _), a in zip(must, args)})
            args = []
        full = {n: number("floats", spell(None, "floats", v)) for n, v in must}
        full.update({n: (d if n in out else value[n]) if n == "nalpha" else number("floats", spell(None, "floats", d if n in out else value[n])) for n, _, d in spec})
        keep = [np.array(a, copy=True) if not callable(a) else None for a in list(args) + list(kw.values()) if isinstance(a, (list, tuple, np.ndarray)) and not self.objects(a)]
        got = fun(*args, **kw)
        exp = fun(**full)
        after = [a for a in list(args) + list(kw.values()) if isinstance(a, (list, tuple, np.ndarray)) and not self.objects(a)]
        need(all(np.array_equal(np.array(a), b) for a, b in zip(after, keep)), "an argument was changed")
        return got, exp, out

    @staticmethod
    def objects(a):
        return isinstance(a, (list, tuple)) and len(a) and hasattr(a[0], "evaluate")

    def examine(self, s):
        with Quiet():
            return getattr(self, s["kind"].split()[-1])(s)

    def rotor(self, s):
        from ccblade.ccblade import CCBlade

        af = [rotors.airfoil(n) for n in ("multi", "two", "multi5", "multi")]
        must = [(n, af if n == "af" else v) for n, v in (EDGE if s["edge"] else MUST)]
        byp, byn, out = chosen(ROTOR, s["pos"], s["out"])
        over = {}
        if "derivatives" not in out:
            over["iterRe"] = 1  # derivatives with Reynolds iteration are refused
        value = {n: v for n, v, _ in ROTOR}
        value.update(over)
        if s["edge"]:
            value.update(precurve=[0, 1, 1, 3], presweep=[1, 0, 1, 2])

        def bx(v):
            return (tuple(v) if s["box"] == "tuple" else list(v)) if self.objects(v) else spell(None, s["box"], v)

        args = [bx(v) for _, v in must] + [bx(value[n]) for n in byp]
        kw = {n: bx(value[n]) for n in byn}
        if s["pos"] == 0 and s["out"]:
            kw.update({n: a for (n, _), a in zip(must, args)})
            args = []
        full = {n: (v if n == "af" else number("floats", spell(None, "floats", v))) for n, v in must}
        full.update({n: number("floats", spell(None, "floats", d if n in out else value[n])) if n not in ("B", "nSector", "iterRe") else (d if n in out else value[n]) for n, _, d in ROTOR})
        A, E = CCBlade(*args, **kw), CCBlade(**full)
        k = 0
        for U, Om, pitch, az in ((9, 30, 2, 20), (12, 0, 80, 0)):
            got, dgot = A.distributedAeroLoads(U, Om, pitch, az)
            exp, dexp = E.distributedAeroLoads(float(U), float(Om), float(pitch), float(az))
            k += self.alike("distributed loads", got, exp, dgot, dexp)
        got, dgot = A.evaluate([9, 12], [30, 0], [2, 80], coefficients=True)
        exp, dexp = E.evaluate(np.array([9.0, 12.0]), np.array([30.0, 0.0]), np.array([2.0, 80.0]), coefficients=True)
        return k + self.alike("evaluation", got, exp, dgot, dexp)

    def alike(self, what, got, exp, dgot, dexp):
        need(set(got) == set(exp) and set(dgot or {}) == set(dexp or {}), "%s: other outputs: %s" % (what, sorted(set(got) ^ set(exp)) or sorted(set(dgot or {}) ^ set(dexp or {}))))
        k = sum(same("%s: %s" % (what, n), got[n], exp[n], 1e-12, 1e-9) for n in exp)
        for n in dexp or {}:
            need(set(dgot[n]) == set(dexp[n]), "%s: other derivatives of %s" % (what, n))
            k += sum(same("%s: %s %s" % (what, n, q), dgot[n][q], dexp[n][q], 1e-11, 1e-6) for q in dexp[n])
        return k

    def evaluate(self, s):
        r = rotors.make(dict(blade="mid4", af="multi"))
        cols = [[9, 12, 5], [30, 0, 20], [2, 80, -4]]
        a = [box(s["box"], c) for c in cols]
        co = () if s["co"] is None else (s["co"],)
        got, _ = r.evaluate(*a, *co) if s["pos"] else r.evaluate(**dict(zip(("Uinf", "Omega", "pitch"), a), **({} if s["co"] is None else {"coefficients": s["co"]})))
        exp, _ = r.evaluate(*[np.array(c, float) for c in cols], coefficients=True)
        need(("CP" in got) == bool(s["co"]), "coefficients are %sreturned" % ("not " if s["co"] else ""))
        k = self.alike("evaluation", got, {n: v for n, v in exp.items() if n in got}, {}, {})
        az = np.array([20.0])[0]
        got, _ = r.distributedAeroLoads(Uinf=9, Omega=30, pitch=2, azimuth=20) if s["pos"] else r.distributedAeroLoads(np.float64(9), np.int64(30), np.float64(2), az)
        exp, _ = r.distributedAeroLoads(9.0, 30.0, 2.0, 20.0)
        return k + self.alike("distributed loads", got, exp, {}, {})

    def later(self, s):
        """sequences that are written to after something was built from them"""
        from ccblade.airfoilprep import Airfoil, Polar
        from ccblade.ccblade import CCAirfoil, CCBlade
        from ccblade.csystem import DirectionVector

        t = s["thing"]
        a = np.arange(-24, 33, 2)
        if t in ("polar", "airfoil"):
            cols = dict(zip(("alpha", "cl", "cd", "cm"), [list(a)] + [list(np.floor(40 * v).astype(int)) for v in tables.shape("camber", a * 1.0, 0)]))
        elif t == "table":
            cols = dict(alpha=list(a), Re=[1000000, 2000000, 5000000])
            cols.update(zip(("cl", "cd", "cm"), (np.floor(40 * np.array([tables.shape("camber", a * 1.0, j)[i] for j in range(3)]).T).astype(int) for i in range(3))))
        elif t == "vector":
            cols = dict(x=[1, 2, 3], y=[-4, 0, 2], z=[5, 7, -9])
        else:
            cols = dict(r=[4, 9, 15, 18], chord=[2, 2, 1, 1], theta=[14, 7, 2, 0], precurve=[0, 1, 1, 2], presweep=[1, 0, 1, 1])

        def make(c):
            if t == "polar":
                return Polar(1e6, *[c[n] for n in LATER[t]])
            if t == "table":
                return CCAirfoil(c["alpha"], c["Re"], c["cl"], c["cd"], c["cm"])
            if t == "vector":
                return DirectionVector(c["x"], c["y"], c["z"])
            if t == "airfoil":
                c["polars"] = [Polar(R, *[c[n] for n in LATER["polar"]]) for R in (3e6, 1e6)]
                return Airfoil(c["polars"])
            return CCBlade(c["r"], c["chord"], c["theta"], [rotors.airfoil("multi")] * 4, 1.0, 20.0, precurve=c["precurve"], presweep=c["presweep"], precurveTip=3.0, presweepTip=2.0)

        def use(o):
            if t in ("polar", "airfoil"):
                ps = o.polars if t == "airfoil" else [o]
                for p in ps + ([o.getPolar(2e6)] if t == "airfoil" else []):
                    for q in (p, p.correction3D(0.4, 0.2, 6.0), p.extrapolate(1.3), p.blend(p, 0.5)):
                        yield from ((n, getattr(q, n)) for n in ("Re", "alpha", "cl", "cd", "cm"))
                    yield "unsteady parameters", p.unsteadyparam()
                return
            if t == "table":
                for x in (-0.3, 0.02, 0.4):
                    for R in (9e5, 1.7e6):
                        yield "coefficients", [float(v) for v in o.evaluate(x, R, return_cm=True)]
                        yield "derivatives", [float(v) for v in o.derivatives(x, R)]
            elif t == "vector":
                for v in (o, o.windToYaw(20.0), o + 1, o.cross(o * 2)):
                    yield from ((n, getattr(v, n)) for n in "xyz")
            else:
                for x in (o.distributedAeroLoads(9.0, 30.0, 2.0, 20.0)[0], o.evaluate([9.0], [30.0], [2.0], coefficients=True)[0]):
                    yield from sorted(x.items())

        given = {n: np.array(v) if t == "vector" and s["box"] == "list" else box(s["box"], v) if np.ndim(v) == 1 or s["box"] != "list" else np.array(v) for n, v in cols.items()}
        if t == "table" and s["box"] == "view":  # second column of the alphabet of spellings is for sequences
            given.update({n: box("view", cols[n]) for n in ("cl", "cd", "cm")})
        got = make(given)
        exp = make({n: np.array(v, float) for n, v in cols.items()})
        for n in s["which"]:
            if n == "polars":
                del given[n][0]
            elif isinstance(given[n], list):
                given[n][:] = [3] * (len(given[n]) - 1)
            else:
                given[n][...] = 3
        return sum(same(n + " after the caller has reused " + ", ".join(s["which"]), x, y, 1e-12, 1e-9) for (n, x), (_, y) in zip(use(got), use(exp)))

    # polars and airfoils
    def polars(self, s, n):
        from ccblade.airfoilprep import Airfoil, Polar

        a = np.arange(-60, 61, 3) if s["data"] == "cylinder" else np.array([-24, -18, -14, -11, -9, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 31])
        ps = []
        for j in range(n):
            cl, cd, cm = tables.shape("camber", a * 1.0, j)
            if s["data"] == "cylinder":  # all data are whole numbers
                cl, cd, cm = 0 * a, 0 * a + 1, 0 * a
            if s["data"] == "flat":
                cl, cd, cm = np.clip(a // 5, -1, 1), 0 * a + 1, 0 * a
            ps.append(Polar(1e6 * (j + 1), *[box(s["box"], v) for v in (a, cl, cd, cm)]))
        return ps[0] if n == 1 else Airfoil(tuple(ps) if s["box"] == "tuple" else ps)

    def same_polars(self, got, exp):
        got, exp = (x.polars if hasattr(x, "polars") else [x] for x in (got, exp))
        need(len(got) == len(exp), "%d polars" % len(got))
        return sum(same(y, getattr(p, y), getattr(q, y), 1e-12, 1e-9) for p, q in zip(got, exp) for y in ("Re", "alpha", "cl", "cd", "cm"))

    def stall(self, s):
        af = self.polars(s, 3 if s["kind"].startswith("airfoil") else 1)
        ref = self.polars(dict(s, box="floats"), 3 if s["kind"].startswith("airfoil") else 1)
        must = STALL_MUST
        got, _, out = self.call(af.correction3D, s, must, STALL)
        _, exp, _ = self.call(ref.correction3D, s, must, STALL)
        return self.same_polars(got, exp)

    def extrapolate(self, s):
        af = self.polars(s, 3 if s["kind"].startswith("airfoil") else 1)
        ref = self.polars(dict(s, box="floats"), 3 if s["kind"].startswith("airfoil") else 1)
        spec = EXT[:2] if s["kind"].startswith("airfoil") else EXT
        must = [("cdmax", 1.3)]
        if "AR" not in s["out"] or s["pos"]:  # the aspect ratio replaces the largest drag
            must = [("cdmax", 5.0)]
        got, _, _ = self.call(af.extrapolate, s, must, spec)
        _, exp, _ = self.call(ref.extrapolate, s, must, spec)
        return self.same_polars(got, exp)

    def unsteady(self, s):
        got, _, _ = self.call(self.polars(s, 1).unsteadyparam, s, [], LIN)
        _, exp, _ = self.call(self.polars(dict(s, box="floats"), 1).unsteadyparam, s, [], LIN)
        return same("unsteady parameters", got, exp, 1e-12, 1e-9)

    def blend(self, s):
        n = 3 if s["kind"].startswith("airfoil") else 1
        k = 0
        for w in (0, 1, 0.25):
            for other in ("camber", "cylinder", "flat"):
                got, exp = (self.polars(q, n).blend(self.polars(dict(q, data=other), n), v) for q, v in ((s, w), (dict(s, box="floats"), float(w))))
                k += self.same_polars(got, exp)
        return k

    def grid(self, s):
        from ccblade.airfoilprep import Airfoil

        k = 0
        A, B = (Airfoil([self.polars(q, 1)] + self.polars(dict(q, data="camber"), 3).polars[1:]) for q in (s, dict(s, box="floats")))
        for al in (None, [-10, 0, 5, 15], range(-20, 21, 4)):
            k += self.same_polars(A.interpToCommonAlpha(*([] if al is None else [spell(None, s["box"], list(al))])), B.interpToCommonAlpha(None if al is None else np.array(al, float)))
        k += self.same_polars(A.getPolar(1500000), B.getPolar(1.5e6)) + self.same_polars(A.getPolar(Re=1000000), B.getPolar(1e6))
        return k + sum(same("grid", x, y, 1e-12, 1e-9) for x, y in zip(A.createDataGrid(), B.createDataGrid()))

    def foil(self, s):
        from ccblade.ccblade import CCAirfoil

        a, Re = tables.ALPHAS["full"], [1e6, 2e6]
        T = [np.array([tables.shape("camber", a, j)[i] for j in range(2)]).T for i in range(3)]
        spec = [("cm", T[2], [])] + FOIL[1:]
        got, exp, out = self.call(CCAirfoil, s, [("alpha", a), ("Re", Re), ("cl", T[0]), ("cd", T[1])], spec)
        k = 0
        for t in (-0.3, 0.02, 0.4):
            for R in (5e5, 1.3e6):
                k += same("coefficients", [float(v) for v in got.evaluate(t, R)], [float(v) for v in exp.evaluate(t, R)], 1e-12, 1e-9)
                if "cm" not in out or s["pos"]:
                    k += same("moment", [float(v) for v in got.evaluate(t, R, True)], [float(v) for v in exp.evaluate(t, R, return_cm=True)], 1e-12, 1e-9)
                    need(len(got.evaluate(t, R, return_cm=True)) == 3 and len(got.evaluate(alpha=t, Re=R)) == 2, "evaluate returns the moment if and only if asked to")
        for n in ("x", "y"):
            k += same("profile " + n, getattr(got, n), getattr(exp, n), 0, 0, 1e-12)
        need(got.AFName == exp.AFName == (FOIL[3][2] if "AFName" in out else FOIL[3][1]), "name %r" % got.AFName)
        need(bool(got.use_cm) == ("cm" not in out), "moments are %sused" % ("not " if "cm" not in out else ""))
        return k + 2
