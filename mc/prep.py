"""Alphabet of polars and reference models of the airfoil preprocessing (written from the literature and the documentation)."""
import numpy as np

from mc import tables

GRIDS = {
    "wind": np.arange(-12.0, 20.1, 2.0),
    "fine": np.arange(-10.0, 18.1, 1.0),
    "odd": np.array([-16.0, -13.5, -11.0, -8.0, -7.0, -4.5, -3.0, -1.0, 0.5, 2.0, 3.3, 5.0, 8.0, 9.5, 12.0, 16.5, 22.0]),
    "low": np.arange(-32.0, 15.1, 2.5),
    "wide": np.arange(-60.0, 75.1, 5.0),
    "pos": np.arange(-6.0, 26.1, 2.0),
    "ten": np.arange(-10.0, 30.1, 2.0),
    "ninety": np.arange(-90.0, 90.1, 5.0),
    "full": tables.ALPHAS["full"],
    "deep": np.arange(-44.0, 61.0, 1.5),
    "third": np.linspace(-40.0, 61.0, 46) / 3.0,
    "half": np.arange(-14.75, 21.0, 1.25),
    "even": np.arange(-20.0, 20.1, 2.0),
    "above": np.arange(1.0, 27.1, 1.3),
    "m75": np.arange(-75.0, 68.1, 6.5),
    "m90": np.arange(-90.0, 45.1, 5.0),
    "uneven": np.array([-21.0, -17.0, -16.5, -12.25, -9.0, -6.0, -5.5, -5.0, -2.0, -0.75, 0.0, 1.1, 4.0, 5.0, 6.2, 7.7, 9.0, 10.0, 14.4, 15.0, 19.3, 31.0]),
}
KINDS = ("camber", "sym", "sharp", "thick", "inv")
ODD = ("drop", "early", "late", "noise", "offset", "flip", "ends")  # shapes no section has, but data may


class P:
    """a polar, as plain data"""

    def __init__(self, Re, alpha, cl, cd, cm):
        self.Re, self.alpha, self.cl, self.cd, self.cm = float(Re), np.array(alpha, float), np.array(cl, float), np.array(cd, float), np.array(cm, float)

    def at(self, a):
        """piecewise linear, ends held"""
        return [pl(a, self.alpha, y) for y in (self.cl, self.cd, self.cm)]


def pl(x, xs, ys):
    """piecewise linear interpolation, written out"""
    x = np.atleast_1d(np.asarray(x, float))
    out = np.empty(len(x))
    for i, v in enumerate(x):
        if v <= xs[0]:
            out[i] = ys[0]
        elif v >= xs[-1]:
            out[i] = ys[-1]
        else:
            j = int(np.sum(xs <= v)) - 1
            t = (v - xs[j]) / (xs[j + 1] - xs[j])
            out[i] = ys[j] * (1 - t) + ys[j + 1] * t
    return out


def make(grid, kind, Re=1e6, j=0, cm="yes"):
    a = GRIDS[grid]
    cl, cd, c = odd(kind, a, j) if kind in ODD else tables.shape(kind, a, j)
    if cm == "start0":
        c = c - c[0]
    elif cm == "last":
        c = np.where(np.arange(len(a)) == len(a) - 1, -0.08, 0.0)
    elif cm == "zero":
        c = np.zeros(len(a))
    elif cm == "up":
        c = 0.03 - 0.002 * a
    return P(Re, a, cl, cd, c)


def odd(kind, a, j):
    cl, cd, cm = tables.shape("camber", a, j)
    i = np.arange(len(a))
    if kind == "drop":  # lift collapses at the end of the data
        cl = cl.copy()
        cl[-2:] = [-0.2, -0.45]
    elif kind == "early":  # the linear range begins above 2 degrees
        cl = np.where(a >= 2.0, 0.1 * (a + 2.0), 0.4 + 0.03 * (a - 2.0))
        cl = np.where(a > 13.0, 1.5 - 0.02 * (a - 13.0), cl)
    elif kind == "late":  # linear up to 33 and down to -31 degrees
        cl = np.where(a > 33.0, 3.6 - 0.03 * (a - 33.0), np.where(a < -31.0, -2.8 - 0.01 * (a + 31.0), 0.1 * (a + 3.0)))
    elif kind == "noise":
        cl, cd, cm = cl + 0.07 * np.sin(2.3 * i + j), cd + 0.003 * (1 + np.sin(1.7 * i)), cm + 0.02 * np.cos(3.1 * i)
    elif kind == "offset":  # positive lift throughout
        cl = cl + 1.6
    elif kind == "ends":  # same lift at both ends, other drag and moment
        cl, cd, cm = cl.copy(), cd + 0.02 + 1e-4 * (a - a[0]), cm - 0.001 * a
        cl[-1] = cl[0]
    elif kind == "flip":
        cl = -cl
    return cl, cd, cm


def real(p, Polar):
    return Polar(p.Re, p.alpha.copy(), p.cl.copy(), p.cd.copy(), p.cm.copy())


def blend(p, q, w):
    a = np.array(sorted(set(p.alpha.tolist()) | set(q.alpha.tolist())))
    lo, hi = max(p.alpha[0], q.alpha[0]), min(p.alpha[-1], q.alpha[-1])
    a = a[(a >= lo) & (a <= hi)]
    v = [(1 - w) * x + w * y for x, y in zip(p.at(a), q.at(a))]
    return P((1 - w) * p.Re + w * q.Re, a, *v)


def at_re(polars, Re):
    """polars sorted by Reynolds number"""
    if Re <= polars[0].Re:
        return polars[0]
    if Re >= polars[-1].Re:
        return polars[-1]
    for p, q in zip(polars, polars[1:]):
        if p.Re < Re <= q.Re:
            return blend(p, q, (Re - p.Re) / (q.Re - p.Re))


def common(polars, alpha=None):
    if alpha is None:
        alpha = np.array(sorted(set().union(*[p.alpha.tolist() for p in polars])))
    return [P(p.Re, alpha, *p.at(alpha)) for p in polars]


def stall3d(p, rR, cr, tsr, amax=30.0, amin_lin=-5.0, amax_lin=5.0):
    """Du-Selig lift and drag corrections as in AirfoilPrep"""
    a = np.radians(p.alpha)
    lin = (p.alpha >= amin_lin - 1e-12) & (p.alpha <= amax_lin + 1e-12)
    n = lin.sum()
    sx, sy, sxx, sxy = a[lin].sum(), p.cl[lin].sum(), (a[lin] ** 2).sum(), (a[lin] * p.cl[lin]).sum()
    m = (n * sxy - sx * sy) / (n * sxx - sx ** 2)
    c0 = (sy - m * sx) / n
    Lam = tsr / np.sqrt(1 + tsr ** 2)

    def g(k):
        e = k / (Lam * rR)
        return (1.6 * cr / 0.1267 * (1 - cr ** e) / (1 + cr ** e) - 1) / m

    fade = np.where(p.alpha <= amax, 1.0, ((90.0 - p.alpha) / (90.0 - amax)) ** 2)
    cl = p.cl + g(1.0) * (m * a + c0 - p.cl) * fade
    cd = p.cd + g(0.5) * (p.cd - pl(0.0, p.alpha, p.cd)[0])
    return P(p.Re, p.alpha, cl, cd, p.cm)


class Viterna:
    """Viterna-Corrigan extrapolation, as a function of the angle"""

    def __init__(self, p, cdmax, AR=None, cdmin=0.001):
        self.p, self.cdmin = p, cdmin
        if AR is not None:
            cdmax = 1.11 + 0.018 * AR
        self.M = M = max(np.max(p.cd), cdmax)
        self.ah, self.al = p.alpha[-1], p.alpha[0]
        t = np.radians(self.ah)
        s, c = np.sin(t), np.cos(t)
        self.A2 = (p.cl[-1] - M * s * c) * s / c ** 2
        self.B2 = (p.cd[-1] - M * s ** 2) / c

    def v(self, deg):
        t = max(np.radians(deg), 1e-4)
        return (self.M * np.sin(t) * np.cos(t) + self.A2 * np.cos(t) ** 2 / np.sin(t), self.M * np.sin(t) ** 2 + self.B2 * np.cos(t))

    def clcd(self, a):
        p, ah, al = self.p, self.ah, self.al
        i = np.where(np.abs(p.alpha - a) < 1e-9)[0]
        if len(i):
            cl, cd = p.cl[i[0]], p.cd[i[0]]
        elif a > ah:
            if a <= 90:
                cl, cd = self.v(a)
            elif a <= 180 - ah:
                cl, cd = self.v(180 - a)
                cl *= -0.7
            else:
                cd = self.v(180 - a)[1]
                cl = 0.7 * p.cl[-1] * (a - 180) / ah
        elif a < al:
            if a >= -ah + 1e-9:
                w = (a - al) / (-ah - al)
                cl = p.cl[0] + w * (-0.7 * p.cl[-1] - p.cl[0])
                cd = p.cd[0] + w * (p.cd[-1] - p.cd[0])
            elif a >= -90:
                cl, cd = self.v(-a)
                cl *= -0.7
            elif a >= -180 + ah:
                cl, cd = self.v(a + 180)
                cl *= 0.7
            else:
                cd = self.v(a + 180)[1]
                cl = 0.7 * p.cl[-1] * (a + 180) / ah
        else:
            raise AssertionError("angle %g inside the data" % a)
        return cl, max(cd, self.cdmin)

    def cm(self, alpha, cl, cd):
        """moment of the extrapolated polar (alpha, cl, cd: the extrapolated table)"""
        p = self.p
        lo, hi = np.floor(self.al / 10) * 10, np.ceil(self.ah / 10) * 10
        st = [x for x in np.arange(-180.0, lo + 1, 10.0) if x < self.al] + p.alpha.tolist() + [x for x in np.arange(hi, 181.0, 10.0) if x > self.ah]
        st = np.array(st)
        v = np.zeros(len(st))
        inside = (st >= self.al) & (st <= self.ah)
        v[inside] = p.cm
        if np.any(p.cm != 0):
            cm0 = None
            for i in range(len(p.cm) - 1):
                if abs(p.alpha[i]) < 20 and p.cl[i] <= 0 <= p.cl[i + 1]:
                    w = -p.cl[i] / (p.cl[i + 1] - p.cl[i])
                    cm0 = p.cm[i] + w * (p.cm[i + 1] - p.cm[i])
                    break
            if cm0 is None:
                w = -p.cl[0] / (p.cl[1] - p.cl[0])
                cm0 = p.cm[0] + w * (p.cm[1] - p.cm[0])
            t = np.radians(self.ah)
            XM = (cm0 - p.cm[-1]) / (p.cl[-1] * np.cos(t) + p.cd[-1] * np.sin(t))
            co = (XM - 0.25) / np.tan(t - np.pi / 2)
            ends = {170.0: -0.5, 180.0: 0.0, -170.0: 0.4, -180.0: 0.0}
            L, D = pl(st, alpha, cl), pl(st, alpha, cd)
            for i, a in enumerate(st):
                if inside[i]:
                    continue
                if a in ends:
                    v[i] = ends[a]
                    continue
                b = np.radians(abs(a))
                x = co * np.tan(b - np.pi / 2) + 0.25
                if abs(a) < 0.01:
                    v[i] = cm0
                elif a > 0:
                    v[i] = cm0 - x * (L[i] * np.cos(b) + D[i] * np.sin(b))
                else:
                    v[i] = -(cm0 - x * (-L[i] * np.cos(b) + D[i] * np.sin(b)))
        return pl(alpha, st, v)
