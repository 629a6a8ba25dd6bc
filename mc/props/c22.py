"""C22: AeroDyn files - what is written is what is read."""
import os

import numpy as np

from mc import core, prep
from mc.common import Quiet, need, same

DIMS = dict(grid=["wind", "fine", "odd", "low", "wide", "full", "deep", "half", "uneven", "third"], grid2=["same", "fine", "odd", "wide", "third"], kind=list(prep.KINDS + prep.ODD) + ["zero", "const"], n=[1, 2, 3, 5],
            order=[0, 1], Re=[1e6, 0.123e6, 98.7654e6], twice=[False, True], existing=[False, True], polars=["plain", "own"], times=[1.0, 30.0, -7.0, 1e-3])
BASES = [dict(grid="wind", grid2="same", kind="camber", n=1, order=0, Re=1e6, twice=False, existing=False, polars="plain", times=1.0),
         dict(grid="odd", grid2="fine", kind="sharp", n=3, order=1, Re=0.123e6, twice=True, existing=True, polars="own", times=1.0)]


def parse(path):
    """independent reader: list of (Re, params, rows)"""
    lines = open(path).read().split("\n")
    need(len(lines) > 5, "the file has %d lines" % len(lines))
    n = int(lines[3].split()[0])
    out, i = [], 4
    for _ in range(n):
        Re = float(lines[i].split()[0]) * 1e6
        par = [float(lines[i + 1 + j].split()[0]) for j in range(8)]
        i += 9
        rows = []
        while not lines[i].startswith("EOT"):
            rows.append([float(x) for x in lines[i].split()])
            i += 1
        i += 1
        out.append((Re, par, np.array(rows)))
    need("".join(lines[i:]).strip() == "", "text after the last table: %r" % lines[i:][:2])
    return out


class Check(core.Base):
    id = "C22"

    def states(self, tier):
        cut = [dict(damage=d, n=n, grid=g, kind=k) for d in ("prefix", "column", "blank", "style") for n in (1, 2, 3)
               for g in ("wind", "odd", "uneven") for k in ("camber", "noise")]
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 4), core.array(DIMS, 3, 1, BASES[0]), core.bfs(cut, lambda s: [], 0),
                          *([core.array(DIMS, 4, 2, BASES[0])] if tier != "quick" else []))

    def damaged(self, c, Airfoil, Polar):
        """a file that is cut off, or has a row without all columns, is refused"""
        ps = [prep.make(c["grid"], c["kind"], 1e6 * (1 + j), j) for j in range(c["n"])]
        path = os.path.join(os.environ["VERIF_SCRATCH"], "d%d.dat" % os.getpid())
        Airfoil([prep.real(p, Polar) for p in ps]).writeToAerodynFile(path)
        text = open(path).read()

        def read(t):
            with open(path, "w", newline="") as f:
                f.write(t)
            try:
                with Quiet():
                    return Airfoil.initFromAerodynFile(path).polars
            except (ValueError, IndexError, TypeError, AttributeError, KeyError, ArithmeticError, EOFError, OSError):
                return None

        def whole(got, what):
            need(got is not None and len(got) == len(ps), "%s: %s polars" % (what, got and len(got)))
            n = 0
            for g, e in zip(got, prep.common(ps)):
                n += same("Reynolds number, " + what, g.Re, e.Re, 1e-9, 0, 0.51)
                for y in ("alpha", "cl", "cd", "cm"):
                    n += same("%s, %s" % (y, what), getattr(g, y), getattr(e, y), 0, 0, 5.1e-7)
            return n

        k = whole(read(text), "file as written")
        lines = text.split("\n")
        rows = [i for i, l in enumerate(lines) if i > 12 and len(l.split()) == 4 and not any(ch.isalpha() for ch in l)]
        need(len(rows) == len(ps) * len(ps[0].alpha), "%d rows" % len(rows))
        if c["damage"] == "prefix":
            for i in range(len(text)):
                got = read(text[:i])
                if got is not None:
                    k += whole(got, "file cut after %d of %d characters is read" % (i, len(text)))
                k += 1
        elif c["damage"] in ("column", "blank"):
            for i in rows:
                for keep in ((3, 2, 1) if c["damage"] == "column" else (0,)):
                    t = list(lines)
                    t[i] = "\t".join(lines[i].split()[:keep])
                    need(read("\n".join(t)) is None, "a file with %d columns in row %d is read without complaint" % (keep, i))
                    k += 1
        else:
            for what in ("tabs", "blanks", "crlf", "tail", "exponent", "header", "extra", "open"):
                t = list(lines)
                if what == "tabs":
                    t = [l.replace(" ", "\t") if i in rows else l for i, l in enumerate(t)]
                elif what == "blanks":
                    t = ["   " + "     ".join(l.split()) + "  " if i in rows else l for i, l in enumerate(t)]
                elif what == "crlf":
                    t = [l + "\r" for l in t]
                elif what == "tail":
                    t = t + ["", "  ", "written by hand", ""]
                elif what == "exponent":
                    t = [" ".join("%.9e" % float(v) for v in l.split()) if i in rows else l for i, l in enumerate(t)]
                elif what == "extra":  # further columns are not part of the documented layout
                    t = [l + "\t0.5\t17" if i in rows else l for i, l in enumerate(t)]
                elif what == "open":  # no line end after the last line
                    while not t[-1].strip():
                        t.pop()
                elif what == "header":
                    t[0], t[1], t[2] = "", "EOT in the header 1 2 3", "42 17"
                k += whole(read("\n".join(t)), "written with " + what)
        os.remove(path)
        return k

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        if "damage" in c:
            return self.damaged(c, Airfoil, Polar)

        class Own(Polar):
            pass

        ps = []
        for j in range(c["n"]):
            g = c["grid"] if c["grid2"] == "same" or j % 2 == 0 else c["grid2"]
            ps.append(prep.make(g, c["kind"], c["Re"] * (1 + 1.5 * j), j))
            for y in ("cl", "cd", "cm"):
                setattr(ps[-1], y, getattr(ps[-1], y) * c["times"])
        af = Airfoil([prep.real(p, Polar) for p in (ps[::-1] if c["order"] else ps)])
        path = os.path.join(os.environ["VERIF_SCRATCH"], "w%d.dat" % os.getpid())
        if c["existing"]:
            with open(path, "w") as f:
                f.write("leftover\n" * 4000)
        af.writeToAerodynFile(path)
        exp = prep.common(ps)
        tables = parse(path)
        need(len(tables) == len(ps), "%d tables in the file" % len(tables))
        k = 0
        for (Re, par, rows), e, q in zip(tables, exp, af.interpToCommonAlpha().polars):
            k += same("Reynolds number in the file", Re, e.Re, 1e-9, 0, 0.51)
            need(rows.shape == (len(e.alpha), 4), "table in the file has shape %s" % (rows.shape,))
            for i, y in enumerate(("alpha", "cl", "cd", "cm")):
                k += same("%s in the file" % y, rows[:, i], getattr(e, y), 0, 0, 5.1e-7)
            k += same("dynamic stall parameters in the file", par, q.unsteadyparam(), 0, 0, 5.1e-7)
        kind = Own if c["polars"] == "own" else Polar
        back = Airfoil.initFromAerodynFile(path, kind) if kind is Own else Airfoil.initFromAerodynFile(path)
        need(len(back.polars) == len(ps), "%d polars read back" % len(back.polars))
        for g, e in zip(back.polars, exp):
            need(type(g) is kind, "polars read back are of type %s" % type(g).__name__)
            k += same("Reynolds number read back", g.Re, e.Re, 1e-9, 0, 0.51)
            for y in ("alpha", "cl", "cd", "cm"):
                k += same("%s read back" % y, getattr(g, y), getattr(e, y), 0, 0, 5.1e-7)
        if c["twice"]:
            first = open(path).read()
            back.writeToAerodynFile(path)
            a, b = parse(path), tables
            for (R1, _, r1), (R2, _, r2) in zip(a, b):
                k += same("second generation", r1, r2, 0, 0, 1e-12)
                k += same("second generation Reynolds number", R1, R2, 1e-12)
        os.remove(path)
        return k
