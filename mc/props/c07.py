"""C07: a batch of operating conditions gives what each condition gives on its own."""
import itertools

import numpy as np

from mc import common, core, rotors
from mc.common import BASE1, Quiet, need, same

POINTS = [(9.0, 9.0, 0.0), (14.0, 4.0, 12.0), (25.0, 0.0, 88.0), (5.0, 20.0, -8.0), (3.0, 1.0, 45.0), (9.0, 9.0, 0.0), (9.0, 9.0, 0.001), (9.0, 9.0001, 0.0), (9.0005, 9.0, 0.0), (9.0, 9.0, 30.0), (9.0, 3.0, 0.0), (18.0, 9.0, 0.0), (9.0, 9.0, -30.0),
          (16.0, 0.0, 0.0), (0.0, 0.0, 88.0)]
N = 6  # the first ones make up the words of the sweep, the others differ in one value only
ROTORS = [dict(), dict(BASE1), dict(tilt=0.0, yaw=0.0, shear=0.0), dict(blade="fat3", af="camber", iterRe=1, wake=False),
          dict(blade="big3", af="cyl+du40+naca", pc="aft"), dict(af="cyl")]


class Check(core.Base):
    id = "C07"

    def states(self, tier):
        """words over the alphabet of conditions: every sequence up to the bound, for every rotor, with derivatives on/off,
        coefficients on/off, and in every container the interface accepts"""
        depth = 3 if tier == "quick" else 4

        def succ(s):
            if len(s["word"]) < depth:
                for p in range(N):
                    yield dict(s, word=s["word"] + [p])

        init = [dict(rotor=i, word=[p], derivs=dv, coef=co, box=bx)
                for i in range(len(ROTORS)) for p in range(N) for dv in (False, True) for co in (False, True)
                for bx in (("array",) if dv else ("array", "list", "column"))
                if tier != "quick" or (i < 4 and (not dv or i < 2) and (bx == "array" or i == 0))]
        one = [0] + list(range(N, len(POINTS)))
        M = len(POINTS) - 1
        pairs = [dict(rotor=i, word=list(w), derivs=dv, coef=True, box=bx) for i in ((0, 1, 4) if tier == "quick" else range(len(ROTORS)))
                 for n in ((2,) if tier == "quick" else (2, 3)) for w in itertools.product(one, repeat=n) for dv in (False, True) for bx in ("array", "whole")
                 if not (dv and (bx == "whole" or tier == "quick" and i))]
        triples = [dict(rotor=0, word=list(w), derivs=False, coef=False, box="array") for w in itertools.product(one, repeat=3)]
        long_ = [dict(rotor=i, word=[(s + k * q) % M for k in range(n)], derivs=dv, coef=True, box="array") for i in (0, 1) for n in (9, 17, 33, 64, 130)
                 for s in range(2) for q in (1, 5) for dv in (False, True) if not (dv and n > 9 or n > 33 and (s or q == 1))]
        calm = [dict(s, coef=False) for s in pairs if M in s["word"]]  # no wind: no coefficients
        pairs = [s for s in pairs if M not in s["word"]] + calm
        return core.union(core.bfs(init, succ, depth - 1), core.bfs(pairs, lambda s: [], 0), core.bfs(long_ + triples, lambda s: [], 0))

    _single = {}

    def single(self, r, p, dv, co):
        key = (r, p, dv, co)
        if key not in self._single:
            U, Om, pi = POINTS[p]
            self._single[key] = rotors.make(ROTORS[r], derivatives=dv).evaluate([U], [Om], [pi], coefficients=co)
        return self._single[key]

    def examine(self, s):
        w = s["word"]
        cols = [np.array([POINTS[p][k] for p in w]) for k in range(3)]
        if s["box"] == "whole":
            cols = [[int(v) if v == int(v) else v for v in q] for q in cols]
        elif s["box"] == "list":
            cols = [list(map(float, x)) for x in cols]
        if s["box"] == "column":
            cols = [x.reshape(-1, 1) for x in cols]
        keep = [np.array(x, copy=True) for x in cols]
        n, k = len(w), 0
        with Quiet():
            out, dout = rotors.make(ROTORS[s["rotor"]], derivatives=s["derivs"]).evaluate(*cols, coefficients=s["coef"])
            one = [self.single(s["rotor"], p, s["derivs"], s["coef"]) for p in w]
        for a, b in zip(cols, keep):
            need(np.array_equal(np.array(a), b), "the arrays of conditions were changed by the analysis")
        for name in out:
            if name == "W":
                continue
            exp = np.array([o[0][name][0] for o in one])
            scale = np.max(np.abs(exp)) * 1e-6
            k += same("%s of the batch" % name, out[name], exp, 1e-10, scale)
        need(set(out) == set(one[0][0]), "a batch has other outputs: %s" % sorted(out))
        need(set(dout) == set(one[0][1]), "a batch has other derivatives: %s" % sorted(dout))
        for name in dout:
            need(set(dout[name]) == set(one[0][1][name]), "a batch has other derivatives of %s" % name)
            for wrt, J in dout[name].items():
                rows = np.vstack([o[1][name][wrt] for o in one])
                if wrt in ("dUinf", "dOmega", "dpitch"):
                    rows = np.diag(rows[:, 0])
                k += same("%s %s of the batch" % (name, wrt), J, rows, 1e-8, float(np.max(np.abs(rows))) * 1e-6)
        return k
