"""C15: an airfoil object reproduces its table."""
import os

import numpy as np

from mc import core, tables
from mc.common import Violation, need, same
from mc.rotors import _FILES, DATA

DIMS = dict(alphas=list(tables.ALPHAS), nre=[1, 0, 2, 3, 4, 5, 6, 13, 22, 24], kind=["camber", "sym", "sharp", "thick", "inv", "const", "zero"],
            cm=[True, False], form=["array", "list", "flat"])
BASE = dict(alphas="full", nre=1, kind="camber", cm=True, form="array")
S = (0.1, 0.001, 0.0001)


class Check(core.Base):
    id = "C15"

    def states(self, tier):
        return core.union(core.lattice(DIMS, [BASE, dict(BASE, nre=4), dict(BASE, kind="sym", nre=2), dict(BASE, alphas="fine", nre=5, kind="const")], 2 if tier == "quick" else 5),
                          core.bfs([dict(poly=p, alphas=a, nre=n) for p in range(4) for a in tables.ALPHAS for n in (1, 0, 2, 3, 4, 5, 6, 13, 22, 24)], lambda s: [], 0),
                          core.bfs([dict(shuffled=p, kind=k, nre=n) for p in ("reversed", "swapped", "rotated", "twice", "Re") for k in ("camber", "sharp")
                                    for n in (1, 3)], lambda s: [], 0),
                          core.bfs([dict(file=k) for k in _FILES] + [dict(file="multi", n=n) for n in (1, 2, 3, 5)], lambda s: [], 0))

    def examine(self, c):
        from ccblade.ccblade import CCAirfoil

        if "file" in c:
            return self.file(c)
        if "poly" in c:
            return self.poly(c, CCAirfoil)
        if "shuffled" in c:
            return self.shuffled(c, CCAirfoil)
        alpha, Re, cl, cd, cm = tables.grid(c["alphas"], c["nre"], c["kind"])
        arrs = [cl, cd, cm]
        if c["form"] == "list":
            args = [list(alpha), list(Re)] + [a.tolist() for a in arrs]
        elif c["form"] == "flat":
            if c["nre"] > 1:
                raise core.Outside
            args = [alpha, np.array(Re)] + [a[:, 0] for a in arrs]
        else:
            args = [alpha, np.array(Re)] + arrs
        keep = [np.array(a, copy=True) for a in args]
        af = CCAirfoil(*args[:4], cm=args[4]) if c["cm"] else CCAirfoil(*args[:4])
        for a, b in zip(args, keep):
            need(np.array_equal(np.array(a), b), "the table passed in is changed")
        return self.fidelity(af, alpha, Re, arrs, c["cm"])

    def fidelity(self, af, alpha, Re, arrs, cm):
        k = 0
        n = 3 if cm else 2
        a = np.deg2rad(alpha)
        res = list(Re) if len(Re) > 1 else [1e6]
        got = np.zeros((n, len(alpha), len(res)))
        for i, ai in enumerate(a):
            for j, Rj in enumerate(res):
                two = af.evaluate(ai, Rj)
                need(len(two) == 2, "evaluate returns %d values" % len(two))
                v = af.evaluate(ai, Rj, return_cm=True)
                need(len(v) == n, "evaluate with return_cm returns %d values" % len(v))
                need(float(v[0]) == float(two[0]) and float(v[1]) == float(two[1]), "return_cm changes cl or cd")
                got[:, i, j] = [float(x) for x in v]
        for m, name in enumerate(("cl", "cd", "cm")[:n]):
            sq = float(np.sum((got[m] - arrs[m]) ** 2)) * (2 if len(Re) < 2 else 1)
            need(sq <= S[m] * 1.25, "%s is off its table: the squared deviations add up to %g (allowed %g)" % (name, sq, S[m]))
            k += got[m].size
        # beyond the table: constant, and independent of Re when there is one Reynolds number only
        lo, hi = a[0], a[-1]
        Rlo, Rhi = (res[0], res[-1])
        for R in (res if len(res) > 1 else [1e4, 1e6, 3e8]):
            for edge, x in ((lo, lo - 0.2), (hi, hi + 0.2), (hi, hi + 10.0)):
                k += same("coefficients beyond the angles of the table", [float(v) for v in af.evaluate(x, R)],
                          [float(v) for v in af.evaluate(edge, R)], 1e-12, 1e-3)
        for x in (0.5 * (lo + hi) + 0.01, 0.07, 0.9 * hi):
            if len(res) > 1:
                for edge, R in ((Rlo, Rlo * 0.3), (Rhi, Rhi * 4)):
                    k += same("coefficients beyond the Reynolds numbers of the table", [float(v) for v in af.evaluate(x, R)],
                              [float(v) for v in af.evaluate(x, edge)], 1e-12, 1e-3)
            else:
                for R in (1e4, 3e8, 1e12):
                    k += same("coefficients at another Reynolds number", [float(v) for v in af.evaluate(x, R)],
                              [float(v) for v in af.evaluate(x, 1e6)], 1e-9, 1e-3)
            # arrays evaluate like scalars
            xs, Rs = np.array([x, 0.0, lo]), np.array([res[0], res[-1], res[0]])
            v = af.evaluate(xs, Rs)
            for m in range(2):
                k += same("array evaluation", v[m], [float(af.evaluate(p, q)[m]) for p, q in zip(xs, Rs)], 1e-13, 1e-6)
        # smooth: at every angle of the table the slopes from both sides agree
        h = 1e-5
        for R in (res[0], res[-1], np.sqrt(res[0] * res[-1])):
            for x in a[1:-1]:
                for m in range(2):
                    f = [float(af.evaluate(x + t, R)[m]) for t in (-2 * h, -h, 0.0, h, 2 * h)]
                    left = (f[0] - 4 * f[1] + 3 * f[2]) / (2 * h)
                    right = (-f[4] + 4 * f[3] - 3 * f[2]) / (2 * h)
                    need(abs(left - right) <= 2e-3 * max(1.0, abs(left)), "%s has a kink at %g deg: slopes %g and %g" % (
                        ("cl", "cd")[m], np.rad2deg(x), left, right))
                    k += 1
        return k

    def poly(self, c, CCAirfoil):
        """a table of a cubic in the angle (and a polynomial in the Reynolds number) is the cubic everywhere inside"""
        alpha, Re, *_ = tables.grid(c["alphas"], c["nre"], "camber")
        x, y = np.deg2rad(np.asarray(alpha, float)), np.array(Re if len(Re) else [1e6], float)
        unit = 1e6 if y[-1] < 1e8 and y[-1] > 1e6 or len(Re) < 2 else y[-1] / 10.0
        y = y / unit
        if len(x) < 4:
            raise core.Outside
        co = [[(0.3, 5.0, 0.0, 0.0), (0.01, 0.0, 0.7, 0.0), (-0.05, 0.1, 0.0, 0.0)], [(0.1, 2.0, -1.0, 3.0), (0.02, -0.1, 1.0, 0.0), (0.0, 0.3, 0.2, 0.1)],
              [(-0.4, 0.0, 2.0, -1.5), (0.3, 0.2, 0.1, -0.4), (0.1, -0.2, 0.0, 0.5)], [(1.0, 0.0, 0.0, 0.0), (0.5, 0.0, 0.0, 0.0), (0.2, 0.0, 0.0, 0.0)]][c["poly"]]

        def f(m, u, v):
            p = co[m]
            base = p[0] + u * (p[1] + u * (p[2] + u * p[3]))
            q = (0.0, 0.02, -0.01, 0.002)[:max(1, min(4, len(Re)))]  # as many powers as the table can show
            return base * (1 + sum(a * v ** i for i, a in enumerate(q))) + (0.01 * v ** (len(q) - 1) if len(q) > 1 else 0.0)

        tab = [np.array([[f(m, u, v) for v in y] for u in x]) for m in range(3)]
        af = CCAirfoil(alpha, np.array(Re), tab[0], tab[1], cm=tab[2])
        k = 0
        for t in np.linspace(0, 1, 23):
            u = x[0] + t * (x[-1] - x[0])
            for w in (0.0, 0.31, 0.5, 0.77, 1.0):
                v = y[0] + w * (y[-1] - y[0])
                got = [float(q) for q in af.evaluate(u, v * unit, return_cm=True)]
                for m, name in enumerate(("cl", "cd", "cm")):
                    k += same("%s of a cubic table at %.4g deg, Re %.3g" % (name, np.rad2deg(u), v * unit), got[m], f(m, u, v), 1e-7, 0, 1e-8)
                eps = 1e-4
                if x[0] + eps < u < x[-1] - eps:
                    s = [float(q) for q in af.derivatives(u, v * unit)]
                    for m, name in enumerate(("cl", "cd")):
                        d = (f(m, u + eps, v) - f(m, u - eps, v)) / (2 * eps)
                        k += same("slope of %s of a cubic table" % name, s[2 * m] if len(s) == 4 else s[m], d, 1e-5, 0, 1e-6)
        return k

    def shuffled(self, c, CCAirfoil):
        """a table out of order is refused, or reproduced"""
        alpha, Re, cl, cd, cm = tables.grid("full", c["nre"], c["kind"])
        alpha, Re = np.asarray(alpha, float), np.array(Re, float)
        i, j = np.arange(len(alpha)), np.arange(cl.shape[1])
        w = c["shuffled"]
        if w == "reversed":
            i = i[::-1]
        elif w == "swapped":
            i[[7, 8]] = i[[8, 7]]
        elif w == "rotated":
            i = np.roll(i, 11)
        elif w == "twice":
            i = np.sort(np.append(i, 20))
        else:
            if len(Re) < 2:
                raise core.Outside
            j = j[::-1]
        tab = [q[np.ix_(i, j)] for q in (cl, cd, cm)]
        try:
            af = CCAirfoil(alpha[i], Re[j] if len(Re) else Re, tab[0], tab[1], cm=tab[2])
        except (ValueError, TypeError, ArithmeticError):
            return 1
        for m in range(3):
            sq = 0.0
            for q, a in enumerate(i):
                for p in range(len(j)):
                    R = Re[j[p]] if len(Re) else 1e6
                    sq += (float(af.evaluate(np.deg2rad(alpha[a]), R, return_cm=True)[m]) - tab[m][q, p]) ** 2
            need(sq <= S[m] * 1.25 * 2, "a table out of order is taken without complaint, and not reproduced (squared deviations %g)" % sq)
        return 3

    def file(self, c):
        from ccblade.ccblade import CCAirfoil

        if c["file"] != "multi":
            path = os.path.join(DATA, _FILES[c["file"]])
            rows = []
            for line in open(path):
                w = line.split()
                try:
                    v = [float(x) for x in w[:4]]
                except ValueError:
                    continue
                if len(v) == 4 and len(w) == 4:
                    rows.append(v)
            t = np.array(rows)
            af = CCAirfoil.initFromAerodynFile(path)
            return self.fidelity(af, t[:, 0], [], [t[:, k][:, None] for k in (1, 2, 3)], True)
        path = os.path.join(os.environ["VERIF_SCRATCH"], "multi-%d-%d.dat" % (c["n"], os.getpid()))
        res = [0.3e6, 1e6, 2.5e6, 5e6, 12e6][:c["n"]]
        alpha = tables.ALPHAS["ragged"]
        cols = [tables.shape("camber", alpha, j) for j in range(c["n"])]
        with open(path, "w") as f:
            f.write("AeroDyn airfoil file\nheader\nline\n")
            f.write("%d        Number of airfoil tables in this file\n" % c["n"])
            for R, (cl, cd, cm) in zip(res, cols):
                f.write("%.6f   Reynolds numbers in millions\n" % (R / 1e6))
                for v, text in ((0.0, "Control setting"), (15.0, "Stall angle (deg)"), (-4.0, "Zero lift angle of attack (deg)"),
                                (6.0, "Cn slope"), (1.5, "Cn stall"), (-0.8, "Cn stall negative"), (0.0, "min drag angle"),
                                (0.01, "min drag")):
                    f.write("%.6f   %s\n" % (v, text))
                for row in zip(alpha, cl, cd, cm):
                    f.write("%.6f %.9f %.9f %.9f\n" % row)
                f.write("EOT\n")
        af = CCAirfoil.initFromAerodynFile(path)
        os.remove(path)
        return self.fidelity(af, alpha, res if c["n"] > 1 else [], [np.array([q[k] for q in cols]).T for k in range(3)], True)
