"""C26: derivatives that rotations and cross products carry along."""
import itertools

import numpy as np

from mc import core, vec
from mc.common import need, same
from mc.props.c24 import Words

PAIRS = [([1.0, -2.0, 3.0], [4.0, 5.0, -6.0]), ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]), ([2.0, 2.0, 2.0], [-1.0, -1.0, -1.0]), ([1e3, 0.0, -1e-3], [0.0, 7.0, 0.5])]


class Check(Words):
    id = "C26"

    def states(self, tier):
        return core.union(Words.states(self, tier), core.bfs(
            [dict(cross=[i, j], form=f, names=nm) for i in range(4) for j in range(4) for f in ("array", "scalar", "long") for nm in (None, ("r", "F"))],
            lambda s: [], 0))

    def examine(self, s):
        if "cross" in s:
            return self.cross(s)
        k = 0
        names = sorted({vec.OPS[op][0] for op in s["word"]} - {None})
        for v, d, steps, values in self.cases(s):
            n = len(d)
            for op, a in zip(s["word"], steps):
                v = vec.apply(v, op, a)
            for key in ["dx", "dy", "dz"] + ["d" + m for m in names]:
                for D, c in ((v.dx, "x"), (v.dy, "y"), (v.dz, "z")):
                    need(key in D, "no derivative %s of %s after %s" % (key, c, s["word"]))
                got = np.array([np.broadcast_to(np.asarray(D[key], float), (n,)) for D in (v.dx, v.dy, v.dz)]).T
                for i in range(n):
                    ang = [a[i] for a in values]
                    if key in ("dx", "dy", "dz"):
                        exp, size = vec.chain(s["word"], ang)[:, "xyz".index(key[1])], 1.0
                    else:
                        exp, size = vec.chain_deriv(s["word"], ang, key[1:]) @ d[i], max(np.linalg.norm(d[i]), 1e-300)
                    k += same("derivative %s after %s" % (key, "/".join(s["word"])), got[i], exp, 0, 0, 2e-14 * (1 + len(steps)) * size)
        return k

    def cross(self, s):
        from ccblade.csystem import DirectionVector as V

        i, j = s["cross"]
        na, nb = s["names"] or ("a", "b")
        eps = np.zeros((3, 3, 3))
        for p in itertools.permutations(range(3)):
            eps[p] = np.linalg.det(np.eye(3)[list(p)])
        kw = {} if s["names"] is None else dict(namea=na, nameb=nb)
        if s["form"] == "scalar":
            a, b = np.array(PAIRS[i][0]), np.array(PAIRS[j][1])
            got = V(*a).cross_deriv(V(*b), **kw)
            k = 0
            for c in range(3):
                k += same("derivative of cross product w.r.t. the first", got[c][na], np.einsum("ij,j->i", eps[c], b), 1e-12)
                k += same("derivative of cross product w.r.t. the second", got[c][nb], np.einsum("ij,i->j", eps[c], a), 1e-12)
            return k + same("cross product", np.ravel(V(*a).cross(V(*b)).toArray()), np.einsum("cij,i,j->c", eps, a, b), 1e-12, np.abs(a).max() * np.abs(b).max())
        A, B = (np.array([PAIRS[(q + m) % 4][w] for m in range(3)]) for q, w in ((i, 0), (j, 1)))
        if s["form"] == "long":  # 12 vectors
            A, B = np.concatenate([A, -2.0 * A, A[:, ::-1], A + 1.0]), np.concatenate([B, B + 2.0, -B, 0.5 * B[:, ::-1]])
        a, b = V(*A.T), V(*B.T)
        got = a.cross_deriv_array(b, **kw)
        k = 0
        for c in range(3):
            for q in range(3):
                k += same("derivative w.r.t. component %s of the first" % "xyz"[q], got[c]["d" + na + "xyz"[q]], np.einsum("j,nj->n", eps[c][q], B), 1e-12)
                k += same("derivative w.r.t. component %s of the second" % "xyz"[q], got[c]["d" + nb + "xyz"[q]], np.einsum("i,ni->n", eps[c][:, q], A), 1e-12)
        v = a.cross(b)
        k += same("cross products", v.toArray(), np.einsum("cij,ni,nj->nc", eps, A, B), 1e-12, 1e3)
        same("first vector", a.toArray(), A, 0)
        same("second vector", b.toArray(), B, 0)
        return k
