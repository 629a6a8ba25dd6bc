"""C19: blending and interpolation of polars and airfoils."""
import itertools

import numpy as np

from mc import core, prep
from mc.common import need, same

G = ["wind", "fine", "odd", "low", "wide", "full", "half", "uneven", "third"]
DIMS = dict(g1=G, g2=G, g3=G, k1=["camber", "sharp", "noise", "drop"], k2=["sym", "thick", "inv", "noise", "early"], w=[0.3, 0.0, 1.0, 0.5, 0.85], n1=[1, 2, 3], n2=[1, 2, 3],
            order=[0, 1, 2], q=[0.9e6, 0.1e6, 1e6, 2.2e6, 3e6, 4.4e6, 6e6, 9e7], shared=[False, True, "near"], scale=[1.0, 0.0123, 0.137913, 31.7])
BASES = [dict(g1="wind", g2="fine", g3="odd", k1="camber", k2="sym", w=0.3, n1=2, n2=1, order=0, q=2.2e6, shared=False, scale=1.0),
         dict(g1="odd", g2="wide", g3="full", k1="sharp", k2="inv", w=0.85, n1=3, n2=3, order=2, q=4.4e6, shared=True, scale=1.0)]
RE1 = [1e6, 3e6, 6e6]
RE2 = [0.5e6, 2e6, 8e6]


class Check(core.Base):
    id = "C19"

    def states(self, tier):
        if tier == "quick":
            return core.union(core.lattice(DIMS, BASES, 2), core.array(DIMS, 3))
        return core.union(core.lattice(DIMS, BASES, 4), core.array(DIMS, 4))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        class Own(Polar):
            pass

        gs = [c["g1"], c["g2"], c["g3"]]
        c = dict(c, q=c["q"] * c["scale"])
        R1, R2 = (np.array(x) * c["scale"] for x in (RE1, {False: RE2, True: RE1, "near": [R * 1.0003 for R in RE1]}[c["shared"]]))
        A = [prep.make(gs[j], c["k1"], R1[j], j) for j in range(c["n1"])]
        B = [prep.make(gs[(j + 1) % 3], c["k2"], R2[j], j, "up") for j in range(c["n2"])]
        perm = list(itertools.permutations(range(len(A))))[c["order"] % [1, 2, 6][c["n1"] - 1] if c["n1"] < 3 else [0, 3, 5][c["order"]]]
        rA = [prep.real(p, Own) for p in A]
        rB = [prep.real(p, Polar) for p in B]
        k = 0

        def eq(what, got, exp):
            n = 0
            n += same(what + " Reynolds number", got.Re, exp.Re, 1e-12)
            n += same(what + " angles", got.alpha, exp.alpha, 1e-13, 1.0)
            for y in ("cl", "cd", "cm"):
                n += same(what + " " + y, getattr(got, y), getattr(exp, y), 1e-11, 1e-3)
            return n

        # polars
        got = rA[0].blend(rB[0], c["w"])
        need(type(got) is Own, "a blended polar is of type %s" % type(got).__name__)
        k += eq("blended polar", got, prep.blend(A[0], B[0], c["w"]))
        # airfoils
        given, given2 = [rA[i] for i in perm], list(rB)
        afA, afB = Airfoil(given), Airfoil(given2)
        need(all(x is rA[i] for x, i in zip(given, perm)) and all(x is y for x, y in zip(given2, rB)), "the list of polars passed in is changed")
        need([p.Re for p in afA.polars] == [p.Re for p in A], "polars are not ordered by Reynolds number")
        got = afA.getPolar(c["q"])
        k += eq("polar at Re %g" % c["q"], got, prep.at_re(A, c["q"]))
        need(type(got) is Own, "a polar at a Reynolds number is of type %s" % type(got).__name__)
        got.cl[:] = 99.0  # a copy: changing it must not reach the airfoil
        got.alpha[0] = -999.0
        k += eq("polar at Re %g asked for again" % c["q"], afA.getPolar(c["q"]), prep.at_re(A, c["q"]))
        mixed = afA.blend(afB, c["w"])
        Re = sorted({p.Re for p in A} | {p.Re for p in B})
        need(len(mixed.polars) == len(Re), "%d polars in the blended airfoil, expected %d" % (len(mixed.polars), len(Re)))
        for g, R in zip(mixed.polars, Re):
            exp = prep.blend(prep.at_re(A, R), prep.at_re(B, R), c["w"])
            k += eq("blended airfoil at Re %g" % R, g, exp)
        a0 = A[0].alpha
        moved = 0.7 * a0 + 0.3 * np.concatenate([a0[1:], [a0[-1] + 1.0]])  # as many angles as the first polar, but others
        for alpha in (None, np.array([-30.0, -9.0, -0.5, 4.4, 11.0, 40.0]), moved, a0[::-1][::2][::-1].copy(), a0 + 1e-3, a0.copy()):
            cm_ = afA.interpToCommonAlpha(alpha) if alpha is not None else afA.interpToCommonAlpha()
            for g, e in zip(cm_.polars, prep.common(A, alpha)):
                k += eq("common angles at Re %g" % e.Re, g, e)
        alpha, Res, cl, cd, cm = afA.createDataGrid()
        exp = prep.common(A)
        k += same("grid angles", alpha, exp[0].alpha, 1e-13, 1.0)
        k += same("grid Reynolds numbers", Res, [p.Re for p in A], 1e-13)
        for y, got in (("cl", cl), ("cd", cd), ("cm", cm)):
            k += same("grid " + y, got, np.array([getattr(p, y) for p in exp]).T, 1e-11, 1e-3)
        # nothing that went in has changed
        for r, p in zip(rA + rB, A + B):
            k += eq("polar passed in", r, p)
        return k
