"""C34: plots of polars and airfoils show their data."""
import numpy as np

from mc import core, plots, prep
from mc.common import Quiet, need, same

DIMS = dict(what=["polar", "single", "separate", "default"], n=[1, 2, 3, 5], grid=["wind", "fine", "odd", "low", "wide", "full", "deep", "half", "uneven"],
            grid2=["same", "odd", "wide"], kind=list(prep.KINDS + prep.ODD), Re=[1e6, 1.25e6, 0.123456e6, 2e7], cm=["yes", "zero", "start0", "last", "up"], order=[0, 1],
            before=["fresh", "extrapolate", "correction3D", "blend", "common"])
BASES = [dict(what=w, n=2, grid="wind", grid2="same", kind="camber", Re=1e6, cm="yes", order=0, before="fresh") for w in DIMS["what"]]


class Check(core.Base):
    id = "C34"

    def states(self, tier):
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 4), core.array(DIMS, 3 if tier == "quick" else 4, 1, BASES[0]))

    def examine(self, c):
        from ccblade.airfoilprep import Airfoil, Polar

        ps = [prep.make(c["grid"] if c["grid2"] == "same" or j % 2 == 0 else c["grid2"], c["kind"], c["Re"] * (1 + j), j, c["cm"]) for j in range(c["n"])]
        if c["before"] == "extrapolate" and any(p.alpha[-1] > 90 for p in ps):
            raise core.Outside
        with Quiet():
            af = Airfoil([prep.real(p, Polar) for p in (ps[::-1] if c["order"] else ps)])
            if c["before"] == "extrapolate":
                af = af.extrapolate(1.3)
            elif c["before"] == "correction3D":
                af = af.correction3D(0.4, 0.2, 7.0)
            elif c["before"] == "blend":
                af = af.blend(Airfoil([prep.real(prep.make("fine", "thick", 1.5e6, 1), Polar)]), 0.4)
            elif c["before"] == "common":
                af = af.interpToCommonAlpha()
        data = [[np.array(v, float, copy=True) for v in (p.alpha, p.cl, p.cd, p.cm)] + [p.Re] for p in af.polars]
        if c["what"] == "polar":
            figs, shown = [], []
            for p in af.polars:
                with plots.Recorder() as rec, Quiet():
                    f = p.plot()
                figs += f
                shown += rec.figures
            want = [[(d, q)] for d in data for q in (1, 2, 3)]
        else:
            with plots.Recorder() as rec, Quiet():
                figs = af.plot() if c["what"] == "default" else af.plot(c["what"] == "single") if c["order"] else af.plot(single_figure=c["what"] == "single")
            shown = rec.figures
            if c["what"] == "separate":
                want = [[(d, q)] for d in data for q in (1, 2, 3)]
            else:
                want = [[(d, q) for d in data] for q in (1, 2, 3)]
        need(len(figs) == len(shown) == len(want) and all(a is b for a, b in zip(figs, shown)), "%d figures returned, %d drawn, expected %d" % (
            len(figs), len(shown), len(want)))
        k = 0
        for fig, w in zip(figs, want):
            need(len(fig.axes) == 1, "%d axes in a figure" % len(fig.axes))
            ax = fig.axes[0]
            need(len(ax.curves) == len(w), "%d curves in a figure, expected %d" % (len(ax.curves), len(w)))
            need("angle" in ax.x and ("lift", "drag", "moment")[w[0][1] - 1] in ax.y, "axes are labelled %r and %r" % (ax.x, ax.y))
            for (x, y, label), (d, q) in zip(ax.curves, w):
                k += same("angles of a curve", x, d[0], 1e-12) + same("%s of a curve" % ax.y, y, d[q], 1e-12)
                need(str(d[4] / 1e6) in label, "curve of Re %g is labelled %r" % (d[4], label))
        for p, d in zip(af.polars, data):
            k += same("polar after plotting", np.array([p.alpha, p.cl, p.cd, p.cm]), np.array(d[:4]), 0)
        return k
