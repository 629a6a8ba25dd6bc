"""Reference model of the blade element momentum rotor, written from the theory (Ning 2013, Buhl 2005,
Glauert/Prandtl, the coordinate definitions of the documentation) with explicit rotation matrices and
plain numpy.  It never calls ccblade code, except for the airfoil objects it is handed.
"""
import numpy as np

PI = np.pi


def rot_z(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]])  # components in a frame turned by +t


def rot_y(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]])


def rot_x(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]])


class Geometry:
    """The rotor geometry the analysis documents, including the endpoint rule (stations are kept off hub and tip)."""

    def __init__(self, r, chord, theta, Rhub, Rtip, precone=0.0, tilt=0.0, yaw=0.0, precurve=None, precurveTip=0.0,
                 presweep=None, presweepTip=0.0, **_):
        r = np.array(r, float)
        n = len(r)
        self.r = r.copy()
        self.chord = np.array(chord, float)
        self.theta = np.deg2rad(np.array(theta, float))
        self.Rhub, self.Rtip = float(Rhub), float(Rtip)
        self.precone, self.tilt, self.yaw = (float(np.deg2rad(x)) for x in (precone, tilt, yaw))
        if precurve is None:
            precurve, precurveTip = np.zeros(n), 0.0
        if presweep is None:
            presweep, presweepTip = np.zeros(n), 0.0
        self.pc, self.pcTip = np.array(precurve, float).copy(), float(precurveTip)
        self.ps, self.psTip = np.array(presweep, float).copy(), float(presweepTip)
        nd = (r - r[0]) / (r[-1] - r[0])
        lo, hi = min(0.01, 0.5 * (nd[0] + nd[1])), max(0.99, 0.5 * (nd[-1] + nd[-2]))
        if Rhub == r[0]:
            self.r[0] = r[0] + lo * (r[-1] - r[0])
        if Rtip == r[-1]:
            self.r[-1] = r[0] + hi * (r[-1] - r[0])
        w = (hi - nd[-2]) / (nd[-1] - nd[-2])
        if self.pcTip == self.pc[-1]:
            self.pc[-1] = (1 - w) * self.pc[-2] + w * self.pc[-1]
        if self.psTip == self.ps[-1]:
            self.ps[-1] = (1 - w) * self.ps[-2] + w * self.ps[-1]
        self.rotorR = self.Rtip * np.cos(self.precone) + self.pcTip * np.sin(self.precone)


def curve(r, pc, ps, precone):
    """azimuth-frame coordinates, local total cone angle and arc length of a blade line"""
    # blade frame -> azimuth frame: undo the cone rotation about y
    M = rot_y(-precone).T  # azimuth->blade is a turn about y by -precone
    xyz = M @ np.vstack([pc, ps, r])
    x, y, z = xyz
    dx, dz = np.diff(x), np.diff(z)
    seg = np.arctan2(-dx, dz)
    cone = np.concatenate([[seg[0]], 0.5 * (seg[:-1] + seg[1:]), [seg[-1]]])
    s = np.concatenate([[0.0], np.cumsum(np.sqrt(np.diff(pc) ** 2 + np.diff(ps) ** 2 + np.diff(r) ** 2))])
    return x, y, z, cone, s


def wind(g, Uinf, Omega_rpm, azimuth_deg, hubHt, shearExp):
    """relative inflow (Vx, Vy) of every station, by the chain of rigid rotations"""
    az = np.deg2rad(azimuth_deg)
    x, y, z, cone, _ = curve(g.r, g.pc, g.ps, g.precone)
    Omega = Omega_rpm * PI / 30.0
    n = len(x)
    Uinf = np.broadcast_to(np.asarray(Uinf, float), (n,))
    R_yw, R_hy, R_ah = rot_z(g.yaw), rot_y(g.tilt), rot_x(az)
    Vx, Vy = np.zeros(n), np.zeros(n)
    for i in range(n):
        p = np.array([x[i], y[i], z[i]])
        p_yaw = R_hy.T @ (R_ah.T @ p)
        V = Uinf[i] * ((hubHt + p_yaw[2]) / hubHt) ** shearExp
        R_ba = rot_y(-cone[i])
        v_az = R_ah @ (R_hy @ (R_yw @ np.array([V, 0.0, 0.0])))
        rel_az = v_az - np.cross(np.array([Omega, 0.0, 0.0]), p)
        v = R_ba @ rel_az
        Vx[i], Vy[i] = v[0], v[1]
    return Vx, Vy


def losses(r, Rhub, Rtip, phi, B, tip, hub):
    """Prandtl tip * hub loss factor"""
    s = abs(np.sin(phi))
    F = 1.0
    with np.errstate(all="ignore"):
        if tip:
            F = F * 2 / PI * np.arccos(np.exp(-B / 2.0 * (Rtip - r) / (r * s)))
        if hub:
            F = F * 2 / PI * np.arccos(np.exp(-B / 2.0 * (r - Rhub) / (Rhub * s)))
    return F


def induction(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, tip, hub, wake, usecd):
    """residual of the one-equation BEM form, induction factors, F, k (scalars)"""
    s, c = np.sin(phi), np.cos(phi)
    d = cd if usecd else 0.0
    cn, ct = cl * c + d * s, cl * s - d * c
    sig = B * chord / (2 * PI * r)
    F = losses(r, Rhub, Rtip, phi, B, tip, hub)
    with np.errstate(all="ignore"):
        k = sig * cn / (4 * F * s * s)
        kp = sig * ct / (4 * F * s * c)
        if phi > 0:
            if k <= 2.0 / 3.0:
                a = k / (1 + k)
            else:  # Buhl's empirical region as a quadratic in a
                # CT = 8/9 + (4F - 40/9) a + (50/9 - 4F) a^2  matched to  CT = 4 k F (1-a)^2
                qa = 50.0 / 9 - 4 * F - 4 * k * F
                qb = 4 * F - 40.0 / 9 + 8 * k * F
                qc = 8.0 / 9 - 4 * k * F
                disc = qb * qb - 4 * qa * qc
                # the root of the heavily loaded branch, a in [0.4, 1]; q = -(b + sign(b) sqrt(disc))/2 avoids cancellation
                q = -0.5 * (qb + np.copysign(np.sqrt(max(disc, 0.0)), qb))
                roots = ([q / qa] if qa != 0 else []) + ([qc / q] if q != 0 else [])
                ok = [x for x in roots if 0.4 - 1e-6 <= x <= 1 + 1e-6]
                a = min(ok, key=lambda x: abs(x - 0.7)) if ok else min(roots, key=lambda x: abs(x - 0.7))
        else:
            a = k / (k - 1) if k > 1 else 0.0
        if not wake:
            kp = 0.0
        ap = kp / (1 - kp)
        if phi > 0:
            R = s / (1 - a) - c * Vx / Vy * (1 - kp)
        else:
            R = s * (1 - k) - c * Vx / Vy * (1 - kp)
    return R, a, ap, F, k, kp


def rotor_integrals(g, Np, Tp):
    """single blade: thrust, side force, vertical force, torque, flap moment (trapezoidal along the arc, zero at ends)"""
    r = np.concatenate([[g.Rhub], g.r, [g.Rtip]])
    pc = np.concatenate([[0.0], g.pc, [g.pcTip]])
    ps = np.concatenate([[0.0], g.ps, [g.psTip]])
    N = np.concatenate([[0.0], Np, [0.0]])
    T_ = np.concatenate([[0.0], Tp, [0.0]])
    _, _, z, cone, s = curve(r, pc, ps, g.precone)
    tz = lambda f: float(np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(s)))
    return tz(N * np.cos(cone)), tz(T_), tz(N * np.sin(cone)), tz(T_ * z), tz(N * z)
