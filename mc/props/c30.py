"""C30: blade twist component."""
import numpy as np

from mc import common, core, omcase, rotors
from mc.common import Outside, Quiet, need, same
from mc.props import c28

DIMS = dict(blade=["mid4", "fat3", "slim5"], foil=["one", "mixed", "re", "tabs"], B=[3, 2], rho=[1.225, 0.4], precone=[2.5, 0.0, -6.0], tilt=[-5.0, 0.0, 8.0], yaw=[0.0, 12.0],
            shear=[0.2, 0.0], hubHt=[80.0, 66.0], pc=["none", "fwd", "aft"], ps=["none", "aft"], tip=[True, False], hub=[True, False], wake=[True, False], usecd=[True, False],
            nSector=[4, 1], U=[9.0, 2.5, 25.0], tsr=[7.0, 3.0, 9.0, 1.5], pitch=[0.0, -4.0, 3.0, 12.0], nopt=[4, 2, 7], inverse=[False, True], aoa=["design", "five", "taper", "mixed", "minus"],
            margin=[0.05, 0.0, 0.12], root=[0, 1, 2], inn=[False, True], before=[None, 0, 1, 2], partials=[False, True], flag=[False, True],
            unset=[None, "Uhub", "pitch", "precone", "tilt", "yaw", "shearExp", "precurve", "presweep", "rho", "mu", "nSector", "tiploss", "hubloss", "wakerotation", "usecd", "aoa_op"])
# more values for the orthogonal arrays; the second: rotors whose twist can be designed
MORE = dict(DIMS, blade=DIMS["blade"] + ["odd6", "big3", "long26", "r5"], B=[3, 2, 1, 5], rho=[1.225, 0.4, 998.0], mu=[1.81206e-5, 1e-3], precone=DIMS["precone"] + [9.0, -2.5], tilt=DIMS["tilt"] + [20.0, -14.0],
            yaw=DIMS["yaw"] + [-35.0, 40.0], shear=DIMS["shear"] + [0.45, -0.1], hubHt=DIMS["hubHt"] + [200.0], pc=DIMS["pc"] + ["slight", "bump", "tipeq", "strong"],
            ps=DIMS["ps"] + ["slight", "bump", "tipeq", "strong"], nSector=[4, 1, 7, 12], U=DIMS["U"] + [0.5, 50.0], tsr=DIMS["tsr"] + [5.0, 12.0], pitch=DIMS["pitch"] + [-30.0, 45.0, 1.0], partials=[False])
DESIGN = dict(MORE, tilt=[0.0], yaw=[0.0], shear=[0.0], inverse=[True], flag=[False])
BASES = [dict(c28.DEFAULT, foil="mixed", pc="aft", ps="none", nopt=4, inverse=False, aoa="design", margin=0.05, root=0, inn=False, partials=False, flag=False),
         dict(c28.DEFAULT, foil="one", tilt=0.0, yaw=0.0, shear=0.0, ps="none", nopt=4, inverse=True, aoa="five", margin=0.05, root=1, inn=False, pitch=3.0, partials=False, flag=False)]
for b in BASES:
    b.pop("az")
OTHER = [dict(c28.OTHER[0], inverse=False), dict(U=6.0, tsr=5.0, pitch=8.0, wake=False, hub=False), dict(shift=2)]


def setup(c):
    f, kw = omcase.kwargs(dict(c, az=0.0))
    n = len(kw["r"])
    kw["Rtip"] = float(kw["r"][-1])  # the blade is defined up to its tip
    if kw.get("presweep") is None:
        kw["presweep"], kw["presweepTip"] = np.zeros(n), 0.0
    d = omcase.rotor_inputs(f, kw, c["foil"], c.get("shift", 0))
    tab = d["airfoils_cl"].shape[3] // 2
    if c["root"]:
        for i in range(c["root"]):  # cylinders
            for key, v in (("airfoils_cl", 0.0), ("airfoils_cd", 0.5), ("airfoils_cm", 0.0)):
                d[key][i] = v
    from ccblade.ccblade import CCAirfoil

    kw["af"] = [CCAirfoil(d["airfoils_aoa"], d["airfoils_Re"], *[d["airfoils_" + q][i, :, :, tab] for q in ("cl", "cd", "cm")]) for i in range(n)]
    x = (kw["r"] - kw["r"][0]) / (kw["r"][-1] - kw["r"][0])
    aoa = {"design": np.full(n, np.pi), "five": np.full(n, np.deg2rad(5.0)), "taper": np.deg2rad(9.0 - 6 * x), "minus": np.deg2rad(-18.0 + 2 * x),
           "mixed": np.where(np.arange(n) % 2, np.pi, np.deg2rad(4.0))}[c["aoa"]]
    pts = np.linspace(0.0, 1.0, c["nopt"])
    d.update(Uhub=f["U"], tsr=f["tsr"], pitch=f["pitch"], theta_in=np.radians(kw["theta"]), s_opt_chord=pts, s_opt_theta=pts, aoa_op=aoa,
             rthick=np.array(([100.0, 95.5][:c["root"]] + [94.5] + [35.0] * n)[:n]), presweep=kw["presweep"], presweepTip=kw["presweepTip"])
    return f, kw, d, x


def opts(c):
    shape = dict(chord=dict(n_opt=c["nopt"]), twist=dict(n_opt=c["nopt"], inverse=c["inverse"], flag=c["flag"]))
    return dict(design_variables=dict(blade=dict(aero_shape=shape)), constraints=dict(blade=dict(stall=dict(margin=c["margin"]))))


class Check(core.Base):
    id = "C30"
    chunk = 4

    def states(self, tier):
        return core.union(core.lattice(DIMS, BASES, 2 if tier == "quick" else 3), *[core.array(DIMS, 2, k, BASES[0]) for k in range(1, 2 if tier == "quick" else 10)],
                          core.array(MORE, 2, 0, BASES[0]), core.array(DESIGN, 2, 0, BASES[1]))

    def examine(self, c):
        from ccblade.ccblade import CCBlade
        from ccblade.ccblade_component import CCBladeTwist

        c = omcase.default(c)
        f, kw, d, s = setup(c)
        n = len(s)
        if c["inverse"] and (f["tilt"] or f["yaw"] or f["shear"]) or c["root"] >= n or c["inverse"] and c["foil"] == "tabs":
            raise Outside
        Om = f["tsr"] * f["U"] / kw["Rtip"] * 30 / np.pi
        mode = dict(modeling_options=omcase.options(c, n))
        azs = 360.0 * np.arange(max(4, f["nSector"])) / max(4, f["nSector"])
        g = common.ref.Geometry(**kw)
        for az in azs:
            Vx, Vy = common.ref.wind(g, f["U"], Om, az, f["hubHt"], f["shear"])
            if min(Vx.min(), Vy.min()) < 1e-2 * f["U"]:
                raise Outside
        with Quiet():
            if c["inverse"] and c["flag"]:  # twist both designed here and by the optimiser
                try:
                    omcase.problem(CCBladeTwist(opt_options=opts(c), **mode), omcase.leave(c, dict(d))).run_model()
                except Exception:
                    return 1
                need(False, "twist designed inversely and optimised at once is not refused")
            p = omcase.problem(CCBladeTwist(opt_options=opts(c), **mode), omcase.leave(c, dict(d)))
            if c["before"] is not None:
                omcase.put(p, setup(dict(c, **OTHER[c["before"]]))[2])
                p.run_model()
                omcase.put(p, d)
            p.run_model()
        k = 0
        got = {name: np.array(p.get_val(name)) for name in (
            "theta CP CM local_airfoil_velocities P T Q M a ap alpha cl cd cl_n_opt cd_n_opt Px_b Py_b Pz_b Px_af Py_af Pz_af LiftF DragF L_n_opt D_n_opt").split()}
        theta = d["theta_in"]
        if c["inverse"]:
            theta = self.design(c, f, kw, d, s, Om)
        k += same("twist", got["theta"], theta, 0, 0, 1e-7)
        theta = got["theta"]
        with Quiet():
            rotor = CCBlade(**dict(kw, theta=np.degrees(theta)))
            L, _ = rotor.distributedAeroLoads(f["U"], Om, f["pitch"], 0.0)
            E, _ = rotor.evaluate([f["U"]], [Om], [f["pitch"]], coefficients=True)
            W = [rotor.distributedAeroLoads(f["U"], Om, f["pitch"], az)[0]["W"] for az in azs]
        for name, e in (("CP", "CP"), ("CM", "CMb"), ("P", "P"), ("T", "T"), ("Q", "Q"), ("M", "Mb")):
            k += same(name, got[name], E[e], 1e-6, max(1e-6, np.abs(E[e]).max()))
        for name, e in (("a", "a"), ("ap", "ap"), ("alpha", "alpha"), ("cl", "Cl"), ("cd", "Cd")):
            k += same(name, got[name], L[e], 1e-6, max(1e-3, np.abs(L[e]).max()))
        need(any(np.allclose(got["local_airfoil_velocities"], w, rtol=1e-6) for w in W), "local velocities %s are those of no azimuth" % got["local_airfoil_velocities"])
        big = max(np.abs(L["Np"]).max(), np.abs(L["Tp"]).max())
        Np, Tp = L["Np"], L["Tp"]
        k += same("Px_b", got["Px_b"], Np, 1e-6, big) + same("Py_b", got["Py_b"], -Tp, 1e-6, big) + same("Pz_b", got["Pz_b"], 0 * Np, 0)
        if f["pitch"] == 0:
            k += same("Px_af", got["Px_af"], Np * np.cos(theta) + Tp * np.sin(theta), 1e-6, big) + same("Py_af", got["Py_af"], Np * np.sin(theta) - Tp * np.cos(theta), 1e-6, big)
        k += same("Pz_af", got["Pz_af"], 0 * Np, 0)
        lift, drag = (0.5 * f["rho"] * L["W"] ** 2 * kw["chord"] * L[q] for q in ("Cl", "Cd"))
        k += same("lift force", got["LiftF"], lift, 1e-6, big) + same("drag force", got["DragF"], drag, 1e-6, big)
        for name, v in (("cl_n_opt", L["Cl"]), ("cd_n_opt", L["Cd"]), ("L_n_opt", lift), ("D_n_opt", drag)):
            k += same(name, got[name], [np.interp(t, s, v) for t in d["s_opt_theta"]], 1e-6, max(1e-3, np.abs(v).max()))
        if c["partials"] and not c["inverse"]:
            with Quiet():
                k += self.partials(p)
        return k

    @staticmethod
    def partials(p):
        """declared derivatives against differences of the outputs"""
        of, k = ("P", "CP", "M", "Px_b"), 0
        p.run_model()
        J = p.compute_totals(of=list(of), wrt=["pitch", "Uhub", "chord"], return_format="flat_dict")
        mid = {o: np.array(p.get_val(o)).ravel() for o in of}
        for x, h in (("pitch", 1e-3), ("Uhub", 1e-4), ("chord", 1e-4)):
            x0 = np.array(p.get_val(x))
            side = []
            for sign in (1, -1):
                v = x0.copy()
                v.flat[-1] += sign * h
                p.set_val(x, v)
                p.run_model()
                side.append({o: sign * (np.array(p.get_val(o)).ravel() - mid[o]) / h for o in of})
            p.set_val(x, x0)
            for o in of:
                fwd, bwd, got = side[0][o], side[1][o], J[o, x][:, -1]
                tol = 2 * np.abs(fwd - bwd) + 1e-3 * (np.abs(fwd).max() + np.abs(mid[o]).max())
                need(np.all(np.abs(got - (fwd + bwd) / 2) <= tol), "derivative of %s with respect to %s is %s, differences give %s and %s" % (o, x, got, fwd, bwd))
                k += got.size
        return k

    def design(self, c, f, kw, d, s, Om):
        """twist for the wanted angles of attack"""
        from ccblade.ccblade import CCBlade
        from scipy.interpolate import PchipInterpolator

        n = len(s)
        alpha = d["aoa_op"].copy()
        Re = Om * np.pi / 30 * kw["r"] * kw["chord"] * kw["rho"] / kw["mu"]
        for i in range(n):
            if alpha[i] == np.pi:
                kw["af"][i].eval_unsteady(d["airfoils_aoa"], *[d["airfoils_" + q][i, :, 0, 0] for q in ("cl", "cd", "cm")])
                alpha[i] = np.deg2rad(kw["af"][i].unsteady["alpha1"]) - c["margin"]
        cl, cd = (np.array([float(a.evaluate(t, R)[m]) for a, t, R in zip(kw["af"], alpha, Re)]) for m in (0, 1))
        alpha[:c["root"]] = alpha[c["root"]]
        rotor = CCBlade(**kw)
        rotor.inverse_analysis = True
        rotor.alpha, rotor.cl, rotor.cd = alpha, cl, cd
        with Quiet() as q:
            rotor.distributedAeroLoads(f["U"], Om, f["pitch"], 0.0)
        need(not any("check input" in w for w in q.text()), "the solver gave up")
        theta = np.array(rotor.theta)
        over = [i for i in range(n) if theta[i] > np.deg2rad(20.0)]
        if over:
            theta[:over[-1] + 1] = np.deg2rad(20.0)
        if c["inn"]:
            theta = PchipInterpolator(d["s_opt_theta"], PchipInterpolator(s, theta)(d["s_opt_theta"]))(s)
        return theta
