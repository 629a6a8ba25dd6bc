"""States built backwards from the solution: the inflow angle, the loading k and the branch of momentum theory are
enumerated, and the chord, twist and rotation speed for which they solve the equations are computed from the theory."""
import numpy as np

from mc import core, ref, rotors

OPT = [dict(tip=t, hub=h, wake=w, usecd=u) for t in (True, False) for h in (True, False) for w in (True, False)
       for u in (True, False)]
K = [-5.0, -1.5, -0.6, -0.1, 0.05, 0.4, "t-1e-2", "t-1e-6", "t+1e-9", "t+1e-6", "t+1e-2", 0.8, 0.999, 1.001, "s-1e-2", "s-1e-4", "s-1e-6",
     "s-1e-9", "s", "s+1e-9", "s+1e-6", "s+1e-4", "s+1e-2", 1.3, 1.8, 3.0, 8.0, 30.0]
DIMS = dict(phi=[-44.0, -30.0, -12.0, -3.0, 0.5, 2.0, 5.0, 12.0, 25.0, 40.0, 60.0, 80.0, 89.0, 92.0, 110.0, 150.0],
            k=K, x=[0.02, 0.3, 0.7, 0.93, 0.995], opt=list(range(16)), B=[1, 2, 3, 6],
            alpha=[-90.0, -25.0, -8.0, -1.0, 3.0, 7.0, 13.0, 22.0, 45.0, 100.0], af=["one", "camber", "naca", "cyl"])


def states(strength, seed=0):
    return core.array(dict(DIMS), strength, seed)


def target(k, F):
    if isinstance(k, str):
        base = 2.0 / 3 if k[0] == "t" else 25.0 / (18 * F) - 1
        return base * (1 + float(k[1:])) if len(k) > 1 else base
    return k


def build(c, n=3):
    """rotor arguments, operating point, reference geometry and the inflow of the designed (middle) station, or None"""
    o = OPT[c["opt"]]
    Rhub, Rtip, U = 1.0, 20.0, 10.0
    r = Rhub + c["x"] * (Rtip - Rhub)
    phi, alpha = np.deg2rad(c["phi"]), np.deg2rad(c["alpha"])
    af = rotors.airfoil(c["af"])
    cl, cd = (float(v) for v in af.evaluate(alpha, 1e6))
    F = ref.losses(r, Rhub, Rtip, phi, c["B"], o["tip"], o["hub"])
    d = cd if o["usecd"] else 0.0
    s, co = np.sin(phi), np.cos(phi)
    cn = cl * co + d * s
    k = target(c["k"], F)
    if cn == 0 or k == 0 or F < 1e-9:
        return None
    chord = k * 4 * F * s * s * 2 * np.pi * r / (c["B"] * cn)
    if not 1e-6 < chord < 10.0 or c["B"] * chord > 4 * np.pi * r:  # a rotor, not a wall
        return None
    _, a, ap, _, k2, kp = ref.induction(r, chord, Rhub, Rtip, phi, cl, cd, c["B"], 1.0, 1.0, o["tip"], o["hub"], o["wake"], o["usecd"])
    # the residual vanishes at this speed ratio
    if phi > 0:
        lam = co * (1 - kp) * (1 - a) / s
    else:
        if k <= 1:
            return None
        lam = co * (1 - kp) / (s * (1 - k))
    if not 0.02 < lam < 200 or not np.isfinite(a) or not np.isfinite(ap):
        return None
    rs = np.array([Rhub + 0.5 * (r - Rhub), r, 0.5 * (r + Rtip)])
    chords = np.array([chord, chord, chord])
    theta = np.full(3, np.rad2deg(phi - alpha))
    kw = dict(r=rs, chord=chords, theta=theta, af=[af] * 3, Rhub=Rhub, Rtip=Rtip, B=c["B"], rho=1.225, mu=1.8e-5,
              precone=0.0, tilt=0.0, yaw=0.0, shearExp=0.0, hubHt=80.0, nSector=1, tiploss=o["tip"], hubloss=o["hub"],
              wakerotation=o["wake"], usecd=o["usecd"], iterRe=1)
    f = dict(rotors.DEFAULTS, B=c["B"], U=U, iterRe=1, rho=1.225, mu=1.8e-5, **o)
    g = ref.Geometry(**kw)
    Omega = lam * U / r
    return dict(kw=kw, f=f, g=g, U=U, Omega=Omega, Vx=U * np.ones(3), Vy=Omega * rs, af=af, phi=phi, a=a, ap=ap)


def solve(d):
    from ccblade.ccblade import CCBlade

    rotor = CCBlade(**d["kw"])
    with core.Quiet() as q:
        loads, _ = rotor.distributedAeroLoads(d["U"], d["Omega"] * 30 / np.pi, 0.0, 0.0)
    return loads, q.text()
