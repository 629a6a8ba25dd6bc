"""C25: vector arithmetic - programs over two registers."""
import numpy as np

from mc import core
from mc.common import Outside, need

OPS = ["a+b", "a-b", "b-a", "a*b", "a/b", "axb", "bxa", "-a", "a+s", "a-s", "a*s", "a/s", "a+=b", "a-=b", "a*=b", "a/=b", "a+=s", "a-=s", "a*=s", "a/=s",
       "b+=a", "b-=a", "b*=a", "a=-b", "a=b+0", "swap", "a+=axb", "profile"]
START = {"array": ([[1.5, -2.0, 0.25], [0.0, 3.0, -1.0], [10.0, 0.5, 7.0], [-0.5, -7.0, 3.0], [4.0, 0.125, -9.0]], [[2.0, 1.0, -4.0], [0.5, -3.0, 8.0], [-1.0, 2.0, 0.125], [6.0, -0.25, 1.5], [-5.0, 9.0, 0.5]]),
         "scalar": ([[1.5, -2.0, 0.25]], [[2.0, 1.0, -4.0]]), "whole": ([[1, -2, 3]], [[2, 5, -4]]),
         "whole array": ([[1, -2, 3], [4, 0, 7]], [[2, 5, -4], [1, 1, 3]]), "one, many": ([[1.5, -2.0, 0.25]], [[2.0, 1.0, -4.0], [0.5, -3.0, 8.0], [-1.0, 2.0, 0.125]]),
         "many, one": ([[2.0, 1.0, -4.0], [0.5, -3.0, 8.0], [-1.0, 2.0, 0.125]], [[1.5, -2.0, 0.25]]), "small": ([[1e-6, 2e-6, -3e-6]], [[1e3, -2e3, 4e3]])}
SCALARS = {"f": 0.5, "i": 3, "n": -2.5, "np": np.float64(1.25), "z": np.array(4.0)}


class Check(core.Base):
    id = "C25"

    def states(self, tier):
        depth = 3 if tier == "quick" else 4

        def succ(s):
            for op in OPS:
                yield dict(s, word=s["word"] + [op])

        return core.bfs([dict(start=st, s=sc, word=[]) for st in START for sc in SCALARS
                         if (tier != "quick" or sc == {"array": "f", "scalar": "n", "whole": "f", "one, many": "n", "many, one": "f"}.get(st)) and (sc == "f" or st in ("array", "whole", "one, many"))],
                        succ, depth)

    def examine(self, st):
        from ccblade.csystem import DirectionVector as V

        s = SCALARS[st["s"]]
        A, B = (np.array(d) for d in START[st["start"]])
        if "many" in st["start"]:
            ins = []
            a, b = (V(*D.T) if len(D) > 1 else V(*D[0].tolist()) for D in (A, B))
        elif "array" in st["start"]:
            ins = [np.array(c) for c in np.vstack([A.T, B.T])]
            a, b = V(*ins[:3]), V(*ins[3:])
        else:
            ins = []
            a, b = V(*A[0].tolist()), V(*B[0].tolist())
        before = [c.copy() for c in ins]
        A, B = A.astype(float), B.astype(float)
        f = float(s)
        tol = [4e-15 * max(np.abs(A).max(), np.abs(B).max())]
        n = len(A)

        def div(x, y):
            if np.any(np.abs(y) < 1e-6):
                raise Outside
            return x / y

        def X(u, v):
            u, v = np.broadcast_arrays(u, v)
            return np.array([[p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]] for p, q in zip(u, v)])

        k, loose = 0, 0.0
        for op in st["word"]:
            if op == "a+b": A, a = A + B, a + b
            elif op == "a-b": A, a = A - B, a - b
            elif op == "b-a": A, a = B - A, b - a
            elif op == "a*b": A, a = A * B, a * b
            elif op == "a/b": A, a = div(A, B), a / b
            elif op == "axb": A, a = X(A, B), a.cross(b)
            elif op == "bxa": A, a = X(B, A), b.cross(a)
            elif op == "-a": A, a = -A, -a
            elif op == "a+s": A, a = A + f, a + s
            elif op == "a-s": A, a = A - f, a - s
            elif op == "a*s": A, a = A * f, a * s
            elif op == "a/s": A, a = A / f, a / s
            elif op == "a+=b":
                A = A + B
                a += b
            elif op == "a-=b":
                A = A - B
                a -= b
            elif op == "a*=b":
                A = A * B
                a *= b
            elif op == "a/=b":
                A = div(A, B)
                a /= b
            elif op == "a+=s":
                A = A + f
                a += s
            elif op == "a-=s":
                A = A - f
                a -= s
            elif op == "a*=s":
                A = A * f
                a *= s
            elif op == "a/=s":
                A = A / f
                a /= s
            elif op == "b+=a":
                B = B + A
                b += a
            elif op == "b-=a":
                B = B - A
                b -= a
            elif op == "b*=a":
                B = B * A
                b *= a
            elif op == "a=-b": A, a = -B, -b
            elif op == "a=b+0": A, a = B + 0, b + 0
            elif op == "swap": A, B, a, b = B, A, b, a
            elif op == "a+=axb":
                A = A + X(A, B)
                a += a.cross(b)
            elif op == "profile": A, a = A[:, [1, 0, 2]], a.airfoilToProfile()
            tol.append(1e-13 * max(np.abs(A).max(), np.abs(B).max()))
        for name, v, W in (("a", a, A), ("b", b, B)):
            need(type(v) is V, "%s is a %s after %s" % (name, type(v).__name__, st["word"]))
            n = len(W)
            for c, col in zip("xyz", W.T):
                got = np.asarray(getattr(v, c), float)
                need(got.size == n, "component %s of %s has %d values after %s" % (c, name, got.size, st["word"]))
                need(np.all(np.abs(np.ravel(got) - col) <= 1e-12 * np.abs(col) + max(tol) * 10), "component %s of %s is %s after %s, expected %s" % (
                    c, name, np.ravel(got).tolist(), " ; ".join(st["word"]), col.tolist()))
                k += 1
        for c, d in zip(ins, before):
            need(np.array_equal(c, d), "an array that a vector was made from was changed by %s" % st["word"])
        return k + 6
