"""Alphabets of airfoils and rotors.  Everything is tiny and literal; the caches are per process."""
import functools
import os

import numpy as np

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")


# ---------------------------------------------------------------- airfoil tables (alpha deg, Re, cl, cd, cm)
def _shape(alpha_deg, clmax=1.4, a0=-2.0, cd0=0.01, cdmax=1.8):
    a = np.deg2rad(alpha_deg)
    b = np.deg2rad(alpha_deg - a0)
    att = 2 * np.pi * np.sin(b) * 0.95
    plate = cdmax * np.sin(b) * np.cos(b)
    w = 1.0 / (1.0 + np.exp((np.abs(alpha_deg - 2.0) - 16.0) / 3.0))
    cl = w * np.clip(att, -clmax, clmax) + (1 - w) * plate
    cd = cd0 + cdmax * np.sin(a) ** 2 * (1 - w) + 0.3 * w * np.sin(b) ** 2
    cm = -0.05 * w - 0.4 * (1 - w) * np.sin(b)
    return cl, cd, cm


def table(name):
    alpha = np.concatenate([np.arange(-180.0, -30.0, 10.0), np.arange(-30.0, 30.0, 3.0), np.arange(30.0, 181.0, 10.0)])
    if name == "one":  # a single Reynolds number
        cl, cd, cm = _shape(alpha)
        return alpha, [1e6], cl[:, None], cd[:, None], cm[:, None]
    if name in ("multi", "multi5"):  # strongly Reynolds dependent
        Re = [2e5, 1e6, 4e6, 9e6] if name == "multi" else [1e5, 5e5, 1e6, 3e6, 8e6, 2e7]
        cols = [_shape(alpha, clmax=0.9 + 0.12 * i, a0=-1.0 - 0.4 * i, cd0=0.02 - 0.003 * i) for i in range(len(Re))]
        return (alpha, Re) + tuple(np.array([c[k] for c in cols]).T for k in range(3))
    if name == "two":  # two Reynolds numbers: linear in Re
        cols = [_shape(alpha), _shape(alpha, clmax=1.7, a0=-3.0, cd0=0.008)]
        return (alpha, [5e5, 8e6]) + tuple(np.array([c[k] for c in cols]).T for k in range(3))
    if name == "sym":
        cl, cd, cm = _shape(alpha, a0=0.0)
        return alpha, [1e6], cl[:, None], cd[:, None], cm[:, None]
    if name == "camber":
        cl, cd, cm = _shape(alpha, a0=-6.0, clmax=1.8, cd0=0.012)
        return alpha, [1e6], cl[:, None], cd[:, None], cm[:, None]
    if name == "cyl":
        return (alpha, [1e6]) + tuple(np.full((len(alpha), 1), v) for v in (0.0, 0.5, 0.0))
    if name == "null":  # no force at all: exposes the undisturbed inflow
        return (alpha, [1e6]) + tuple(np.zeros((len(alpha), 1)) for _ in range(3))
    raise KeyError(name)


AIRFOILS = ("one", "multi", "sym", "camber", "two", "cyl", "naca", "du40")
_FILES = {"naca": "NACA64_A17.dat", "du40": "DU40_A17.dat", "du21": "DU21_A17.dat", "du25": "DU25_A17.dat",
          "du30": "DU30_A17.dat", "du35": "DU35_A17.dat", "cyl1": "Cylinder1.dat", "cyl2": "Cylinder2.dat"}


@functools.lru_cache(None)
def airfoil(name):
    from ccblade.ccblade import CCAirfoil

    if name in _FILES:
        return CCAirfoil.initFromAerodynFile(os.path.join(DATA, _FILES[name]))
    alpha, Re, cl, cd, cm = table(name)
    return CCAirfoil(alpha, Re, cl, cd, cm)


# ---------------------------------------------------------------- rotors
R5 = dict(
    r=[2.8667, 5.6, 8.3333, 11.75, 15.85, 19.95, 24.05, 28.15, 32.25, 36.35, 40.45, 44.55, 48.65, 52.75, 56.1667,
       58.9, 61.6333],
    chord=[3.542, 3.854, 4.167, 4.557, 4.652, 4.458, 4.249, 4.007, 3.748, 3.502, 3.256, 3.01, 2.764, 2.518, 2.313,
           2.086, 1.419],
    theta=[13.308, 13.308, 13.308, 13.308, 11.48, 10.162, 9.011, 7.795, 6.544, 5.361, 4.188, 3.125, 2.319, 1.526,
           0.863, 0.37, 0.106],
    Rhub=1.5, Rtip=63.0,
)
R5AF = ["cyl1", "cyl1", "cyl2", "du40", "du35", "du35", "du30", "du25", "du25", "du21", "du21"] + ["naca"] * 6

BLADES = {
    # name: (r, chord, theta, Rhub, Rtip)
    "mid4": ([4.0, 9.0, 15.0, 18.5], [2.2, 1.9, 1.2, 0.8], [14.0, 7.0, 2.0, 0.5], 1.5, 20.0),
    "big3": ([10.0, 35.0, 58.0], [4.4, 3.4, 1.8], [12.0, 5.5, 0.4], 2.0, 63.0),
    "slim5": ([0.35, 0.9, 1.5, 2.1, 2.4], [0.22, 0.2, 0.15, 0.1, 0.06], [22.0, 12.0, 6.0, 2.0, 0.0], 0.2, 2.5),
    "fat3": ([3.0, 6.0, 9.0], [2.8, 2.4, 1.6], [10.0, 4.0, -2.0], 1.0, 10.0),
    "edge4": ([1.5, 8.0, 14.0, 20.0], [2.2, 1.9, 1.2, 0.8], [14.0, 7.0, 2.0, 0.5], 1.5, 20.0),  # stations on hub and tip
    "odd6": ([1.1, 2.0, 5.5, 6.0, 9.5, 11.2], [1.3, 2.2, 1.0, 1.7, 0.9, 1.2], [3.0, 25.0, -6.0, 10.0, 4.0, -8.0], 0.8, 12.0),
    "tip3": ([18.0, 25.0, 30.0], [1.8, 1.3, 0.6], [6.0, 2.0, -1.0], 2.0, 30.0),  # a station on the tip only
    "dense7": ([1.5, 1.62, 5.0, 11.0, 17.0, 19.9, 20.0], [0.7, 0.75, 2.1, 1.6, 1.1, 0.7, 0.5], [14.0, 13.5, 9.0, 5.0, 2.0, 0.6, 0.4], 1.5, 20.0),  # many stations at the ends
    "long26": (list(np.linspace(2.0, 60.0, 26)), list(3.0 + np.sin(np.linspace(0.3, 2.9, 26)) - np.linspace(0.0, 2.2, 26)), list(13.0 * np.linspace(1.0, 0.0, 26) ** 1.5 - 1.0), 1.2, 61.0),
    "r5": (R5["r"], R5["chord"], R5["theta"], R5["Rhub"], R5["Rtip"]),
    "turn4": ([2.0, 7.0, 12.0, 22.0], [9.0, 3.0, 1.5, 0.004], [74.0, 35.0, -14.0, -33.0], 1.0, 25.0),  # strongly twisted, very wide and very thin
    "two2": ([5.0, 15.0], [2.0, 1.0], [8.0, 1.0], 1.0, 20.0),
}


def precurve(kind, r, Rtip):
    """(array, tip) of a bent blade line; None: argument not passed"""
    x = np.array(r) / Rtip
    if kind == "none":
        return None, 0.0
    if kind == "zero":
        return np.zeros(len(x)), 0.0
    if kind == "ztip":  # straight, but the tip point is off the line: every argument is explicit
        return np.zeros(len(x)), 0.004 * Rtip
    if kind == "bump":  # straight inboard, bent outboard, the tip point back on the axis
        return np.where(x > 0.6, 0.1 * Rtip * (x - 0.6), 0.0), 0.0
    if kind == "wave":  # changes sign along the blade
        return 0.04 * Rtip * np.sin(7.0 * x), -0.02 * Rtip
    if kind == "neartip":  # the tip point almost, but not quite, at the height of the last station
        c = 0.07 * Rtip * x
        return c, float(c[-1]) * (1 + 4e-6)
    if kind == "arch":  # bent in between, the last station and the tip point on the axis
        return 0.2 * Rtip * (x - x[0]) * (x[-1] - x), 0.0
    amp = {"fwd": -0.05, "aft": 0.06, "strong": 0.2, "tipeq": 0.05, "fwdeq": -0.045, "slight": 0.004}[kind] * Rtip
    c = amp * x ** 2
    return c, (float(c[-1]) if kind in ("tipeq", "fwdeq") else amp)


DEFAULTS = dict(blade="mid4", af="one", B=3, rho=1.225, mu=1.81206e-5, precone=2.5, tilt=-5.0, yaw=0.0, shear=0.2,
                hubHt=80.0, nSector=4, pc="none", ps="none", tip=True, hub=True, wake=True, usecd=True, iterRe=1,
                U=9.0, tsr=7.0, pitch=0.0, az=0.0, chordx=1.0)


def rotor_args(c, **over):
    """keyword arguments of the rotor constructor for a configuration (as documented), plus its geometry"""
    c = dict(DEFAULTS, **c)
    r, chord, theta, Rhub, Rtip = BLADES[c["blade"]]
    r, chord, theta = np.array(r), np.array(chord) * c["chordx"], np.array(theta)
    pc, pct = precurve(c["pc"], r, Rtip)
    ps, pst = precurve(c["ps"], r, Rtip)
    names = c["af"].split("+")
    af = [airfoil(names[min(i * len(names) // len(r), len(names) - 1)]) for i in range(len(r))]
    kw = dict(r=r, chord=chord, theta=theta, af=af, Rhub=Rhub, Rtip=Rtip, B=c["B"], rho=c["rho"], mu=c["mu"],
              precone=c["precone"], tilt=c["tilt"], yaw=c["yaw"], shearExp=c["shear"], hubHt=c["hubHt"],
              nSector=c["nSector"], precurve=pc, precurveTip=pct, presweep=ps, presweepTip=pst, tiploss=c["tip"],
              hubloss=c["hub"], wakerotation=c["wake"], usecd=c["usecd"], iterRe=c["iterRe"])
    kw.update(over)
    return kw


def operating(c):
    """(Uinf, Omega rpm, pitch deg, azimuth deg)"""
    c = dict(DEFAULTS, **c)
    Rtip = BLADES[c["blade"]][4]
    return c["U"], c["tsr"] * c["U"] / Rtip * 30.0 / np.pi, c["pitch"], c["az"]


def make(c, **over):
    from ccblade.ccblade import CCBlade

    return CCBlade(**rotor_args(c, **over))
