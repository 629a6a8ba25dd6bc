"""Shared parts of the checks: the configuration lattice and the comparison helpers."""
import numpy as np

from mc import core, ref, rotors
from mc.core import Outside, Quiet, Violation, need

ALPHABET = dict(
    blade=["mid4", "big3", "slim5", "fat3", "edge4", "two2"],
    af=["one", "multi", "multi5", "two", "sym", "camber", "cyl", "naca", "cyl+du40+naca", "multi+one", "two+multi5+sym"],
    B=[3, 1, 2, 5],
    rho=[1.225, 0.4, 998.0],
    mu=[1.81206e-5, 1e-3],
    precone=[2.5, 0.0, -6.0, 20.0],
    tilt=[-5.0, 0.0, 8.0, -20.0],
    yaw=[0.0, 12.0, -35.0],
    shear=[0.2, 0.0, 0.45],
    hubHt=[80.0, 66.0, 200.0],
    pc=["none", "zero", "fwd", "aft", "strong", "tipeq"],
    ps=["none", "zero", "aft", "strong", "tipeq"],
    tip=[True, False],
    hub=[True, False],
    wake=[True, False],
    usecd=[True, False],
    iterRe=[1, 2, 5],
    nSector=[4, 1, 5, 8],
    U=[9.0, 2.5, 14.0, 30.0],
    tsr=[7.0, 0.3, 1.5, 3.0, 5.0, 9.0, 12.0, 20.0],
    pitch=[0.0, -15.0, -4.0, 3.0, 12.0, 45.0, 88.0],
    az=[0.0, 30.0, 90.0, 180.0, 225.0, 270.0, 361.0, -50.0],
    chordx=[1.0, 0.15, 2.5],
)

# more values of every dimension, for the orthogonal arrays (at most 23 per dimension)
WIDE = dict(
    ALPHABET,
    blade=["mid4", "big3", "slim5", "fat3", "edge4", "two2", "odd6", "tip3", "dense7", "long26", "r5", "turn4"],
    af=ALPHABET["af"] + ["naca+two", "camber+sym+cyl", "du40+du30+du25+du21+naca"],
    B=[3, 1, 2, 5, 4, 6],
    rho=[1.225, 0.4, 998.0, 1.0],
    mu=[1.81206e-5, 1e-3, 2e-7],
    precone=[2.5, 0.0, -6.0, 20.0, -2.5, 8.0, 0.5, -15.0],
    tilt=[-5.0, 0.0, 8.0, -20.0, 5.0, 3.0, -1.0, 15.0],
    yaw=[0.0, 12.0, -35.0, -12.0, 5.0, 20.0, 1.0, 50.0],
    shear=[0.2, 0.0, 0.45, 0.1, 1.0, -0.1, 0.3],
    hubHt=[80.0, 66.0, 200.0, 100.0],
    pc=["none", "zero", "ztip", "fwd", "aft", "strong", "tipeq", "bump", "wave", "neartip", "slight"],
    ps=["none", "zero", "ztip", "aft", "strong", "tipeq", "bump", "wave", "neartip", "slight"],
    iterRe=[1, 2, 5, 3],
    nSector=[4, 1, 5, 8, 2, 3, 6, 7, 12, 17, 24, 37],
    U=[9.0, 2.5, 14.0, 30.0, 0.5, 6.0, 11.4, 20.0, 55.0, 0.1, 130.0],
    tsr=[7.0, 0.3, 1.5, 3.0, 5.0, 9.0, 12.0, 20.0, 2.2, 6.0, 8.0, 10.0, 15.0],
    pitch=[0.0, -15.0, -4.0, 3.0, 12.0, 45.0, 88.0, -2.0, 1.0, 6.0, 23.0, -30.0, -8.0, 100.0, -95.0],
    az=[0.0, 30.0, 90.0, 180.0, 225.0, 270.0, 361.0, -50.0, 120.0, 45.0, 300.0, 800.0, -400.0, -170.0],
    chordx=[1.0, 0.15, 2.5, 0.5, 1.6],
)


def wide(*without_, **replace):
    d = {k: v for k, v in WIDE.items() if k not in without_}
    d.update(replace)
    return d


# a second base far from the first: propeller brake / high loading, everything bent
BASE0 = {}
BASE1 = dict(blade="slim5", af="multi", B=2, precone=-6.0, tilt=8.0, yaw=12.0, shear=0.45, pc="aft", ps="fwd", U=14.0,
             tsr=3.0, pitch=3.0, az=225.0)
BASE2 = dict(blade="fat3", af="camber", tsr=12.0, pitch=-4.0, precone=0.0, tilt=0.0, shear=0.0)
BASE3 = dict(blade="mid4", af="sym", wake=False, usecd=False, tsr=9.0, pitch=-15.0)


def dims(*names, **replace):
    d = {n: ALPHABET[n] for n in names} if names else dict(ALPHABET)
    d.update(replace)
    return d


def without(*names, **replace):
    d = {k: v for k, v in ALPHABET.items() if k not in names}
    d.update(replace)
    return d


def full(c):
    return dict(rotors.DEFAULTS, **c)


def inflow(c):
    """reference geometry and relative wind for a configuration"""
    f = full(c)
    kw = rotors.rotor_args(f)
    g = ref.Geometry(**kw)
    U, Om, pitch, az = rotors.operating(f)
    Vx, Vy = ref.wind(g, U, Om, az, f["hubHt"], f["shear"])
    return g, Vx, Vy


def ordinary(f, azimuths=(0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0), margin=1e-3):
    """rotating, with inflow from upwind and towards the leading edge at every station and azimuth"""
    kw = rotors.rotor_args(f)
    g = ref.Geometry(**kw)
    U, Om, pitch, _ = rotors.operating(f)
    for az in azimuths:
        Vx, Vy = ref.wind(g, U, Om, az, f["hubHt"], f["shear"])
        if min(Vx.min(), Vy.min()) <= margin * U:
            return False
    return True


def close(a, b, rtol, scale=0.0, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= rtol * np.maximum(np.maximum(np.abs(a), np.abs(b)), scale) + atol))


def same(what, a, b, rtol, scale=0.0, atol=0.0, key=None):
    """a: observed, b: expected"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, "%s has shape %s, expected %s" % (what, a.shape, b.shape), key)
    if not close(a, b, rtol, scale, atol):
        i = np.unravel_index(np.nanargmax(np.where(np.isfinite(a - b), np.abs(a - b), np.inf)), a.shape) if a.ndim else ()
        raise Violation("%s is %r, expected %r (worst at %s: %r against %r)" % (
            what, np.round(a, 10).tolist(), np.round(b, 10).tolist(), list(map(int, i)), float(a[i]), float(b[i])), key)
    return 1


LOADS = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")


def distributed(c, **over):
    """run the distributed load analysis; returns (rotor, loads, derivs, warnings, printed)"""
    f = full(c)
    rotor = rotors.make(f, **over)
    U, Om, pitch, az = rotors.operating(f)
    with Quiet() as q:
        loads, derivs = rotor.distributedAeroLoads(U, Om, pitch, az)
    return rotor, loads, derivs, q.text(), q.out.getvalue()
