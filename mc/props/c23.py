"""C23: the command line tool of the airfoil preprocessor does what the library does."""
import os
import runpy
import sys

import numpy as np

from mc import core, plots, prep, repo
from mc.common import Quiet, need, same
from mc.props.c22 import parse

DIMS = dict(action=["stall3D", "extrap", "blend"], n=[1, 2, 3], grid=["wind", "odd", "fine"], kind=["camber", "sharp", "inv"], common=[False, True],
            out=[None, "given.out", "sub/given.txt"], p=[0, 1, 2, 3, 4, 5, 6, 7], ext=[".dat", "", ".tar.txt"], ext2=["same", ".af", ""], place=["here", "sub"], n2=[1, 2], spelled=["first", "last"], plot=[False, True],
            grid2=["same", "fine", "uneven"])
BASES = [dict(action=a, n=2, grid="wind", kind="camber", common=False, out=None, p=0, ext=".dat", place="here", n2=1, spelled="last", plot=False, ext2="same", grid2="same") for a in DIMS["action"]]
ARGS = dict(stall3D=[("0.5", "0.2", "7.0"), ("0.25", "0.3", "5.5"), ("1.0", "0.04", "9"), ("0.333", "0.1875", "6.125"), ("0.125", "0.45", "3.375"), ("0.7512", "0.0625", "10.5"), ("0.05", "0.9", "0.75"), ("0.95", "0.008", "15")], extrap=[("1.3",), ("0.01",), ("2",), ("1.125",), ("1.0625",), ("0.9",), ("2.75",), ("0.5",)], blend=[("0.3",), ("0.0",), ("1",), ("0.125",), ("1.25",), ("0.8125",), ("0.001",), ("0.999",)])


class Check(core.Base):
    id = "C23"

    def states(self, tier):
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 3), core.array(DIMS, 2, 0, BASES[0]), core.array(DIMS, 2, 1, BASES[0]),
                          *([core.array(DIMS, 3, 2, BASES[0])] if tier != "quick" else []))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        d = os.path.join(os.environ["VERIF_SCRATCH"], "cli%d" % os.getpid())
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        old = os.getcwd()
        os.chdir(d)
        try:
            return self.inside(c, Airfoil, Polar)
        finally:
            os.chdir(old)
            for base, dirs, files in os.walk(d):
                for f in files:
                    os.remove(os.path.join(base, f))

    def inside(self, c, Airfoil, Polar):
        pre = "sub/" if c["place"] == "sub" else ""
        src, oth = pre + "source" + c["ext"], pre + "other" + (c["ext"] if c["ext2"] == "same" else c["ext2"])
        ps = [prep.make(c["grid"] if j % 2 == 0 or c["grid2"] == "same" else c["grid2"], c["kind"], 1e6 * (j + 1), j) for j in range(c["n"])]
        qs = [prep.make("odd", "thick", 1.5e6 * (j + 1), j) for j in range(c["n2"])]
        Airfoil([prep.real(p, Polar) for p in ps]).writeToAerodynFile(src)
        Airfoil([prep.real(p, Polar) for p in qs]).writeToAerodynFile(oth)
        before = {f: open(f).read() for f in (src, oth)}
        par = list(ARGS[c["action"]][c["p"]])
        opt = ["--" + c["action"]] + ([oth] if c["action"] == "blend" else []) + par
        more = (["--out", c["out"]] if c["out"] else []) + (["--common"] if c["common"] else []) + (["--plot"] if c["plot"] else [])
        argv = [src] + opt + more if c["spelled"] == "first" else opt + more + [src]
        if c["spelled"] == "last" and not more and c["action"] != "stall3D":
            argv = opt + [src]
        script = os.path.join(repo.REPO, "ccblade", "airfoilprep.py")
        keep, sys.argv = sys.argv, [script] + argv
        try:
            with Quiet(), plots.Recorder() as rec:
                runpy.run_path(script, run_name="__main__")
        except SystemExit as e:
            raise core.Violation("the tool exits with %r for %s" % (e.code, argv))
        finally:
            sys.argv = keep
        root, ext = os.path.splitext(src)
        name = dict(stall3D=root + "_3D" + ext, extrap=root + "_extrap" + ext,
                    blend=root + "+" + os.path.splitext(os.path.basename(oth))[0] + "_blend" + par[-1] + os.path.splitext(oth)[1])[c["action"]]
        out = c["out"] or name
        there = sorted(os.path.join(b, f)[2:] for b, _, fs in os.walk(".") for f in fs)
        need(rec.shown == (1 if c["plot"] else 0) and bool(rec.figures) == c["plot"], "%d figures, shown %d times" % (len(rec.figures), rec.shown))
        need(there == sorted([src, oth, out]), "files after %s: %s, expected the sources and %s" % (argv, there, out))
        for f in before:
            need(open(f).read() == before[f], "the source %s was changed" % f)
        # what the documented operation gives, from the reference model
        P6 = [prep.P(R, *[r[:, i] for i in range(4)]) for R, _, r in parse(src)]
        Q6 = [prep.P(R, *[r[:, i] for i in range(4)]) for R, _, r in parse(oth)]
        if c["action"] == "stall3D":
            exp = [prep.stall3d(p, *[float(x) for x in par]) for p in P6]
        elif c["action"] == "extrap":
            exp = None
        else:
            Re = sorted({p.Re for p in P6} | {p.Re for p in Q6})
            exp = [prep.blend(prep.at_re(P6, R), prep.at_re(Q6, R), float(par[0])) for R in Re]
        got = parse(out)
        k = 3
        if exp is not None:
            if c["plot"]:
                k += self.drawn(c, rec, P6, None if c["common"] else exp)
            exp = prep.common(sorted(exp, key=lambda p: p.Re))
            need(len(got) == len(exp), "%d tables" % len(got))
            for (R, _, rows), e in zip(got, exp):
                k += same("Reynolds number", R, e.Re, 1e-9, 0, 0.51)
                need(rows.shape == (len(e.alpha), 4), "table has shape %s" % (rows.shape,))
                for i, y in enumerate(("alpha", "cl", "cd", "cm")):
                    k += same(y, rows[:, i], getattr(e, y), 1e-8, 0, 6e-7)
        else:
            if c["plot"]:
                k += self.drawn(c, rec, P6, None)
            need(len(got) == len(P6), "%d tables" % len(got))
            for (R, _, rows), p in zip(got, P6):
                v = prep.Viterna(p, float(par[0]))
                k += same("Reynolds number", R, p.Re, 1e-9, 0, 0.51)
                a = rows[:, 0]
                need(np.all(np.diff(a) > 0), "angles are not increasing")
                same("angle range", [a[0], a[-1]], [-180.0, 180.0], 1e-9)
                e = np.array([v.clcd(x) for x in a])
                k += same("lift", rows[:, 1], e[:, 0], 1e-5, 0, 3e-6) + same("drag", rows[:, 2], e[:, 1], 1e-5, 0, 3e-6)
                k += same("moment", rows[:, 3], v.cm(a, rows[:, 1], rows[:, 2]), 1e-4, 0, 1e-5)
        return k

    def drawn(self, c, rec, source, result):
        """what --plot shows: the result of every polar, next to its source except for blending"""
        from mc.common import close

        curves = [v[:2] for f in rec.figures for ax in f.axes for v in ax.curves]
        sets = ([] if c["action"] == "blend" else [("source", source)]) + ([("result", result)] if result else [])
        per = dict(stall3D=4, extrap=6, blend=3)[c["action"]]
        if c["action"] != "blend" or result:
            need(len(curves) == per * len(source if c["action"] != "blend" else result), "%d curves drawn" % len(curves))
        k = 0
        for what, ps in sets:
            for j, p in enumerate(ps):
                for y in ("cl", "cd") + (("cm",) if c["action"] != "stall3D" else ()):
                    v = getattr(p, y)
                    need(any(len(a) == len(p.alpha) and close(a, p.alpha, 1e-8) and close(b, v, 1e-7) for a, b in curves), "%s of %s polar %d is not drawn" % (y, what, j))
                    k += len(v)
        return k
