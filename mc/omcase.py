"""OpenMDAO problems around the components, for a configuration of the common lattice."""
import os

import numpy as np

from mc import common, ref, rotors, tables

os.environ.setdefault("OPENMDAO_REPORTS", "0")
os.environ.setdefault("OPENMDAO_USE_MPI", "0")
ALPHA = np.concatenate([np.arange(-180.0, -30.0, 15.0), np.arange(-30.0, 31.0, 3.0), np.arange(45.0, 181.0, 15.0)])
# name: (shape per station, Reynolds numbers, tables per station)
FOILS = {"one": (["camber"], [1e6], 1), "mixed": (["thick", "camber", "sharp"], [1e6], 1), "re": (["camber"], [2e5, 1e6, 4e6, 9e6], 1),
         "mixed re": (["thick", "sym"], [5e5, 8e6], 1), "tabs": (["camber", "sharp"], [1e6], 3)}
UNITS = dict(V_load="m/s", Uhub="m/s", Omega_load="rpm", pitch_load="deg", pitch="deg", azimuth_load="deg", r="m", chord="m", theta="deg", theta_in="rad", aoa_op="rad",
             Rhub="m", Rtip="m", hub_height="m", precone="deg", tilt="deg", yaw="deg", precurve="m", precurveTip="m", presweep="m", presweepTip="m",
             rho="kg/m**3", mu="kg/(m*s)", airfoils_aoa="deg")


def foils(name, n):
    """(aoa, Re, cl, cd, cm) with shapes (n, aoa, Re, tab)"""
    kinds, Re, ntab = FOILS[name]
    C = np.zeros((3, n, len(ALPHA), len(Re), ntab))
    for i in range(n):
        for j in range(len(Re)):
            for t in range(ntab):
                C[:, i, :, j, t] = tables.shape(kinds[i % len(kinds)], ALPHA - 0.7 * i, 2 * j + t)
    return ALPHA, np.array(Re), C[0], C[1], C[2]


def airfoils(name, n, tab=0):
    from ccblade.ccblade import CCAirfoil

    a, Re, cl, cd, cm = foils(name, n)
    return [CCAirfoil(a, Re, cl[i, :, :, tab], cd[i, :, :, tab], cm[i, :, :, tab]) for i in range(n)]


def options(c, n):
    kinds, Re, ntab = FOILS[c["foil"]]
    return {"WISDEM": {"RotorSE": dict(n_span=n, n_aoa=len(ALPHA), n_Re=len(Re), n_tab=ntab, inn_af=bool(c.get("inn", False)))}}


def kwargs(c):
    """arguments of the rotor itself"""
    f = common.full(dict(c, af="one"))
    kw = rotors.rotor_args(f)
    n = len(kw["r"])
    kw["af"] = airfoils(c["foil"], n)
    if kw.get("precurve") is None:
        kw["precurve"] = np.zeros(n)
    return f, kw


def problem(comp, inputs):
    import openmdao.api as om

    p = om.Problem(reports=None)
    p.model.add_subsystem("comp", comp, promotes=["*"])
    p.setup()
    put(p, inputs)
    return p


def put(p, inputs):
    for k, v in inputs.items():
        u = UNITS.get(k)
        if u:
            p.set_val(k, v, units=u)
        else:
            p.set_val(k, v)


# what an input stands for when it is not set
UNSET = {"V_load": dict(U=20.0), "Uhub": dict(U=9.0), "pitch_load": dict(pitch=0.0), "pitch": dict(pitch=0.0), "azimuth_load": dict(az=0.0), "precone": dict(precone=0.0),
         "tilt": dict(tilt=0.0), "yaw": dict(yaw=0.0), "shearExp": dict(shear=0.0), "precurve": dict(pc="none"), "presweep": dict(ps="none"), "nSector": dict(nSector=4), "tiploss": dict(tip=True),
         "hubloss": dict(hub=True), "wakerotation": dict(wake=True), "usecd": dict(usecd=True), "rho": dict(rho=1.225), "mu": dict(mu=1.81e-5), "aoa_op": dict(aoa="design")}
WITH = {"precurve": ["precurve", "precurveTip"], "presweep": ["presweep", "presweepTip"]}


def default(c, rpm=0.0):
    """the case that results when the input c["unset"] is left alone"""
    c = dict(c)
    if c.get("unset"):
        if c["before"] is not None:
            raise common.Outside
        if c["unset"] == "Omega_load":
            c["tsr"] = rpm * np.pi / 30 * rotors.BLADES[c["blade"]][4] / c["U"]
        else:
            c.update(UNSET[c["unset"]])
    return c


def leave(c, d):
    """inputs without those left alone"""
    for k in WITH.get(c.get("unset"), [c.get("unset")]):
        d.pop(k, None)
    return d


def rotor_inputs(f, kw, foil, shift=0):
    aoa, Re, cl, cd, cm = foils(foil, len(kw["r"]))
    if shift:  # other tables of the same size
        cl, cd, cm = np.roll(cl, shift, 1) * 0.9, cd * 1.3 + 0.01, cm - 0.02 * shift
    return dict(r=kw["r"], chord=kw["chord"], Rhub=kw["Rhub"], Rtip=kw["Rtip"], hub_height=kw["hubHt"], precone=kw["precone"], tilt=kw["tilt"],
                yaw=kw["yaw"], precurve=kw["precurve"], precurveTip=kw.get("precurveTip", 0.0), rho=kw["rho"], mu=kw["mu"], shearExp=kw["shearExp"],
                nBlades=kw["B"], nSector=kw["nSector"], tiploss=kw["tiploss"], hubloss=kw["hubloss"], wakerotation=kw["wakerotation"], usecd=kw["usecd"],
                airfoils_aoa=aoa, airfoils_Re=Re, airfoils_cl=cl, airfoils_cd=cd, airfoils_cm=cm)
