"""C24: chains of frame rotations."""
import numpy as np

from mc import core, vec
from mc.common import need, same


def comps(v, n):
    return np.array([np.broadcast_to(np.asarray(c, float), (n,)) for c in (v.x, v.y, v.z)]).T


class Words(core.Base):
    def states(self, tier):
        depth = 3 if tier == "quick" else 4

        def succ(s):
            for op in vec.LETTERS:
                yield dict(s, word=s["word"] + [op])

        init = [dict(word=[], angles=a, vectors=v, form=f) for a in range(len(vec.ANGLES)) for v in vec.VECTORS
                for f in ("array", "scalar", "one vector", "one angle", "long")
                if (tier != "quick" and (f == "array" or a == 0)) or (a, v, f) in ((0, "mixed", "array"), (1, "whole", "scalar"), (2, "huge", "one vector"), (0, "zero", "one angle"), (0, "mixed", "long"))]
        return core.bfs(init, succ, depth)

    def cases(self, s):
        """(vector to start from, its components, angles per step, angle values per step and item)"""
        from ccblade.csystem import DirectionVector as V

        data = vec.VECTORS[s["vectors"]]
        A = [np.roll(vec.ANGLES[s["angles"]], 3 * j) * (1 - 2 * (j % 2)) for j in range(len(s["word"]))]
        if s["form"] == "array":
            d = np.array(data)
            yield V(d[:, 0], d[:, 1], d[:, 2]), d, A, A
        elif s["form"] == "long":  # 13 vectors, 13 angles
            d = np.concatenate([np.array(data, float), -3.0 * np.array(data, float), np.array(data, float)[:, ::-1] + 0.5, [[2.0, 0.3, -1.0]]])
            A = [np.concatenate([a, 0.5 * a[::-1], a + 33.0, [-61.0]]) for a in A]
            yield V(d[:, 0], d[:, 1], d[:, 2]), d, A, A
        elif s["form"] == "scalar":
            for i, d in enumerate(data):
                yield V(*d), np.array([d]), [float(a[i]) for a in A], [a[i:i + 1] for a in A]
        elif s["form"] == "one vector":
            d = data[0]
            yield V.fromArray(np.array(d)), np.array([d] * 4), A, A
        else:
            d = np.array(data)
            yield V(d[:, 0], d[:, 1], d[:, 2]), d, [float(a[0]) for a in A], [np.repeat(a[:1], 4) for a in A]


class Check(Words):
    id = "C24"

    def examine(self, s):
        k = 0
        for v0, d, steps, values in self.cases(s):
            n = len(d)
            v = v0
            for op, a in zip(s["word"], steps):
                keep = comps(v, n) if s["form"] != "one vector" else None
                w = vec.apply(v, op, a)
                need(type(w).__name__ == "DirectionVector", "%s returns a %s" % (op, type(w).__name__))
                if keep is not None:
                    same("vector that was rotated by %s" % op, comps(v, n), keep, 0)
                v = w
            got = comps(v, n)
            big = np.linalg.norm(d, axis=1).max()
            for i in range(n):
                M = vec.chain(s["word"], [a[i] for a in values])
                size = max(np.linalg.norm(d[i]), 1e-300)
                k += same("%s of %s by %s" % ("/".join(s["word"]), d[i].tolist(), [float(a[i]) for a in values]), got[i], M @ d[i], 0, 0, 2e-14 * (1 + len(steps)) * size)
                k += same("length after %s" % "/".join(s["word"]), np.linalg.norm(got[i]), np.linalg.norm(d[i]), 0, 0, 2e-14 * (1 + len(steps)) * size)
            # and back again
            for op, a in zip(s["word"][::-1], steps[::-1]):
                v = vec.apply(v, vec.INVERSE[op], a)
            for i, g in enumerate(comps(v, n)):
                k += same("%s undone" % "/".join(s["word"]), g, d[i].astype(float), 0, 0, 4e-14 * (1 + len(steps)) * max(np.linalg.norm(d[i]), 1e-300))
            if s["form"] != "one vector" and not s["word"]:
                arr = v0.toArray()
                k += same("toArray", arr, d.astype(float), 1e-14)
                back = type(v0).fromArray(arr.T)
                k += same("fromArray", comps(back, n), d.astype(float), 1e-14)
            if s["form"] != "one vector":
                same("vector at the start", comps(v0, n), d.astype(float), 0)
            need(np.isfinite(big), "not finite")
        return k
