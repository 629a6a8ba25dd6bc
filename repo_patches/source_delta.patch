From 42a5aaab370f157a642deb47c70455f3a3bc93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 01/27] fix: Prandtl loss factors use |sin phi| so that the
 propeller brake region is solvable

---
 ccblade/src/bem.f90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..da33913 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -57,15 +57,13 @@ subroutine inductionFactors(r, chord, Rhub, Rtip, phi, cl, cd, B, &
     ! Prandtl's tip and hub loss factor
     Ftip = 1.0_dp
     if ( tipLoss ) then
-        ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-        factortip = B/2.0_dp*(Rtip - r)/(r*sphi)
+        factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
         Ftip = 2.0_dp/pi*acos(exp(-factortip))
     end if
 
     Fhub = 1.0_dp
     if ( hubLoss ) then
-        ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*sphi)
+        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
         Fhub = 2.0_dp/pi*acos(exp(-factorhub))
     end if
 
@@ -446,13 +444,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   ftip = 1.0_dp
   IF (tiploss) THEN
 ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-    temp = 2.0_dp*r*sphi
+    temp = 2.0_dp*r*abs(sphi)
     temp0 = (rtip-r)/temp
     factortip = b*temp0
     arg1 = EXP(-factortip)
     DO nd=1,nbdirs
-      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(sphi*2.0_dp*rd(nd)+&
-&       2.0_dp*r*sphid(nd)))/temp
+      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(abs(sphi)*2.0_dp*rd(nd)+&
+&       2.0_dp*r*sign(1.0_dp,sphi)*sphid(nd)))/temp
       arg1d(nd) = -(EXP(-factortip)*factortipd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
@@ -469,13 +467,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   fhub = 1.0_dp
   IF (hubloss) THEN
 ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-    temp0 = 2.0_dp*rhub*sphi
+    temp0 = 2.0_dp*rhub*abs(sphi)
     temp = (r-rhub)/temp0
     factorhub = b*temp
     arg1 = EXP(-factorhub)
     DO nd=1,nbdirs
-      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(sphi*2.0_dp*rhubd(nd)+&
-&       2.0_dp*rhub*sphid(nd)))/temp0
+      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(abs(sphi)*2.0_dp*rhubd(nd)+&
+&       2.0_dp*rhub*sign(1.0_dp,sphi)*sphid(nd)))/temp0
       arg1d(nd) = -(EXP(-factorhub)*factorhubd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
-- 
2.43.0


From e4d1f2e3cdc0456c6324da6cce76ae0bac526397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 02/27] fix: refuse analytic derivatives with iterRe > 1
 instead of returning wrong ones

---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..1c98d0a 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -666,7 +666,7 @@ class CCBlade(object):
         """derivatives of fzero, a, ap"""
 
         if self.iterRe != 1:
-            ValueError("Analytic derivatives not supplied for case with iterRe > 1")
+            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
 
         # x = [phi, chord, theta, Vx, Vy, r, Rhub, Rtip, pitch]  (derivative order)
 
-- 
2.43.0


From a980662dea33b999779a2485891692a053e05297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 03/27] fix: a parked blade facing the wind squarely (no
 tangential inflow) is loaded

---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 1c98d0a..cc2f82a 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,7 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        if Vx != 0.0 and (Vy != 0.0 or not rotating):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
-- 
2.43.0


From 53dd6707aac3408e5bb13bf66edbe58dc389f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 04/27] fix: derivatives of the coefficients are finite where
 the quantity or the rotor speed is zero

---
 ccblade/ccblade.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index cc2f82a..d017470 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1394,34 +1394,43 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (
+                    dQ_ds.T / (q * self.rotorR * A)
+                    - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (
+                    dMy_ds.T / (q * self.rotorR * A)
+                    - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (
+                    dMz_ds.T / (q * self.rotorR * A)
+                    - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (
+                    dMb_ds.T / (q * self.rotorR * A)
+                    - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From 83e7c326d7ea5a23e1624cd2d5d520209eb2fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 05/27] fix: load derivatives exist where a force coefficient
 of a section is zero

---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index d017470..4eb9539 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -792,11 +792,11 @@ class CCBlade(object):
                 dct_dx = dcl_dx * sphi + cl * cphi * dphi_dx - dcd_dx * cphi + cd * sphi * dphi_dx
 
                 # Np, Tp
-                if cn == 0.0 or W == 0.0 or chord == 0.0:
+                if W == 0.0 or chord == 0.0:
                     print(phi, rotating, r, chord, theta, af, Vx, Vy)
                     raise ValueError()
-                dNp_dx = Np * (1.0 / cn * dcn_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
-                dTp_dx = Tp * (1.0 / ct * dct_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                dNp_dx = q * chord * dcn_dx + Np * (2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                dTp_dx = q * chord * dct_dx + Tp * (2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
 
                 alpha_deg = np.rad2deg(alpha_rad)
 
-- 
2.43.0


From e7914ddb391cdf20c921e67eec07c6cf2983fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 06/27] fix: no net in-plane force or tilting moment on an
 axisymmetric rotor, and its true derivatives

---
 ccblade/ccblade.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 4eb9539..b522f17 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -604,8 +604,8 @@ class CCBlade(object):
         self.rotorR = Rtip * np.cos(self.precone) + self.precurveTip * np.sin(self.precone)
 
         # azimuthal discretization
-        if self.tilt == 0.0 and self.yaw == 0.0 and self.shearExp == 0.0:
-            self.nSector = 1  # no more are necessary
+        if self.tilt == 0.0 and self.yaw == 0.0 and self.shearExp == 0.0 and not self.derivatives:
+            self.nSector = 1  # no more are necessary (except for derivatives w.r.t. tilt, yaw, and shear)
         else:
             self.nSector = max(4, nSector)  # at least 4 are necessary
 
@@ -1273,6 +1273,8 @@ class CCBlade(object):
             for azimuth in azimuth_angles:  # integrate across azimuth
                 ca = np.cos(azimuth)
                 sa = np.sin(azimuth)
+                if nsec == 1:  # axisymmetric: the in-plane components cancel across the rotor
+                    ca = sa = 0.0
 
                 # contribution from this azimuthal location
                 loads, derivs = self.distributedAeroLoads(Uinf[i], Omega[i], pitch[i], np.rad2deg(azimuth))
-- 
2.43.0


From b71f56611921ad2312fcc64348bafa0de5e52758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 07/27] fix: airfoil derivatives agree with evaluate outside
 the table and for two Reynolds numbers

---
 ccblade/ccblade.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index b522f17..9d5f136 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -214,16 +214,22 @@ class CCAirfoil(object):
         dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
         dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
 
-        if self.one_Re:
+        # evaluate holds the coefficients constant beyond the ends of the table
+        alpha_knots, Re_knots = tck_cl[:2]
+        if alpha < alpha_knots[0] or alpha > alpha_knots[-1]:
+            dcl_dalpha = 0.0
+            dcd_dalpha = 0.0
+
+        if self.one_Re or Re < Re_knots[0] or Re > Re_knots[-1]:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
+        elif self.cl_spline.degrees[1] == 1:  # linear in Re (bisplev cannot differentiate those)
+            Re_ends = np.array([Re_knots[0], Re_knots[-1]])
+            dcl_dRe = np.diff(self.cl_spline.ev(alpha, Re_ends))[0] / np.diff(Re_ends)[0]
+            dcd_dRe = np.diff(self.cd_spline.ev(alpha, Re_ends))[0] / np.diff(Re_ends)[0]
         else:
-            try:
-                dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
-                dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
-                dcl_dRe = 0.0
-                dcd_dRe = 0.0
+            dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
+            dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From b3128967f79a0e02583fa2ef66ff0cf6c614a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 08/27] fix: written AeroDyn files have line ends and can be
 read back

---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From b18cbc8e9b56ed835fc4a25136f14781fd098572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 09/27] fix: angle of attack of minimum drag is reported in
 degrees like the other angles

---
 ccblade/airfoilprep.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..9bd2daa 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -466,7 +466,16 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (
+            0.0,
+            np.degrees(alphaU),
+            np.degrees(alpha0),
+            m,
+            cnStallUpper,
+            cnStallLower,
+            np.degrees(alpha[minIdx]),
+            cd[minIdx],
+        )
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From d68597e79ae772838cf9cc83ff83212272592359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 10/27] fix: extrapolated polars do not repeat the lowest
 original angle of attack

---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 9bd2daa..2654fe3 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -280,6 +280,8 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
+        if alpha_low <= -alpha_high:
+            alpha5 = alpha5[:-1]  # alpha_low itself is part of the original data
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From d9b453e8c277d2ae3a1938060ea699565a739239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 11/27] fix: rotating twice by the same angle accumulates the
 derivative with respect to it

---
 ccblade/csystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..c68ee1f 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -116,7 +116,7 @@ class DirectionVector(object):
         dxnew["dz"] = dx["dz"] * c + dy["dz"] * s
         dxnew["d" + thetaname] = (-x * s + y * c) * np.radians(thetaM)
         for dangle in angles:
-            dxnew[dangle] = dx[dangle] * c + dy[dangle] * s
+            dxnew[dangle] = dxnew.get(dangle, 0.0) + dx[dangle] * c + dy[dangle] * s
 
         dynew = {}
         dynew["dx"] = -dx["dx"] * s + dy["dx"] * c
@@ -124,7 +124,7 @@ class DirectionVector(object):
         dynew["dz"] = -dx["dz"] * s + dy["dz"] * c
         dynew["d" + thetaname] = (-x * c - y * s) * np.radians(thetaM)
         for dangle in angles:
-            dynew[dangle] = -dx[dangle] * s + dy[dangle] * c
+            dynew[dangle] = dynew.get(dangle, 0.0) - dx[dangle] * s + dy[dangle] * c
 
         dznew = {}
         dznew["dx"] = dz["dx"] * np.ones_like(theta)  # multiply by ones just to get right size in case of float
-- 
2.43.0


From 9595a05ada927c9ede8e935e76d4e899eaa47c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 12/27] fix: extrapolation keeps the original moment
 coefficient at the last angle of attack

---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 2654fe3..543c432 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -306,6 +306,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # the original data must not be overridden where it ends on one of these angles
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From 3980c70a33b7a479fb7adb8b4102448ebfa37011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 13/27] fix: distributedAeroLoads accepts the documented
 per-station wind speeds

---
 ccblade/ccblade.py  | 3 +++
 ccblade/src/bem.f90 | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 9d5f136..244c5f7 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -820,6 +820,9 @@ class CCBlade(object):
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
 
+        # the wind speed may be given for the whole rotor or at each radial station
+        Uinf = np.ones(len(self.r)) * Uinf
+
         Vx, Vy = _bem.windcomponents(
             self.r,
             self.precurve,
diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index da33913..c0816ca 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -216,8 +216,8 @@ subroutine windComponents(n, r, precurve, presweep, precone, yaw, tilt, azimuth,
 
     ! in
     integer, intent(in) :: n
-    real(dp), dimension(n), intent(in) :: r, precurve, presweep
-    real(dp), intent(in) :: precone, yaw, tilt, azimuth, Uinf, OmegaRPM, hubHt, shearExp
+    real(dp), dimension(n), intent(in) :: r, precurve, presweep, Uinf
+    real(dp), intent(in) :: precone, yaw, tilt, azimuth, OmegaRPM, hubHt, shearExp
 
     ! out
     real(dp), dimension(n), intent(out) :: Vx, Vy
@@ -725,10 +725,10 @@ SUBROUTINE WINDCOMPONENTS_DV(n, r, rd, precurve, precurved, presweep, &
   INTEGER, PARAMETER :: dp=KIND(0.d0)
 ! in
   INTEGER, INTENT(IN) :: n, nbdirs
-  REAL(dp), DIMENSION(n), INTENT(IN) :: r, precurve, presweep
+  REAL(dp), DIMENSION(n), INTENT(IN) :: r, precurve, presweep, uinf
   REAL(dp), DIMENSION(nbdirs, n), INTENT(IN) :: rd, precurved, &
 & presweepd
-  REAL(dp), INTENT(IN) :: precone, yaw, tilt, azimuth, uinf, omegarpm, &
+  REAL(dp), INTENT(IN) :: precone, yaw, tilt, azimuth, omegarpm, &
 & hubht, shearexp
   REAL(dp), DIMENSION(nbdirs), INTENT(IN) :: preconed, yawd, tiltd, &
 & azimuthd, uinfd, omegarpmd, hubhtd, shearexpd
-- 
2.43.0


From 3b034175937a5d28de96384b81a108ebd5b5c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 14/27] fix: load derivatives use the airfoil sensitivities at
 the Reynolds number of the loads

---
 ccblade/ccblade.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 244c5f7..affea1f 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -718,7 +718,7 @@ class CCBlade(object):
             **self.bemoptions,
         )
 
-        return dR_dx, da_dx, dap_dx
+        return dR_dx, da_dx, dap_dx, dcl_dx, dcd_dx
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
@@ -750,7 +750,7 @@ class CCBlade(object):
 
                 # derivative of residual function
                 if rotating:
-                    dR_dx, da_dx, dap_dx = self.__residualDerivatives(phi, r, chord, theta, af, Vx, Vy)
+                    dR_dx, da_dx, dap_dx, dcl_dx, dcd_dx = self.__residualDerivatives(phi, r, chord, theta, af, Vx, Vy)
                     dphi_dx = np.array([1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])
                 else:
                     dR_dx = np.zeros(9)
@@ -786,12 +786,13 @@ class CCBlade(object):
                     self.mu,
                 )
 
-                # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                if not rotating:  # otherwise cl and cd are those of the residual, and so are their derivatives
+                    # cl, cd (spline derivatives)
+                    dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
 
-                # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                    # chain rule
+                    dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
+                    dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 654c190bed879b3693d1313c8708da5edadb235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 15/27] fix: derivatives with respect to the radial stations
 include the neighbors on curved blades

---
 ccblade/ccblade.py | 51 ++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index affea1f..2a39342 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -839,7 +839,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -870,8 +870,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal, as the cone angles of a curved blade depend on neighboring stations
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -879,11 +879,11 @@ class CCBlade(object):
         dVx_dsweep = np.diag(Vxd[2 * n : 3 * n, :])  # off-diagonal terms are known to be zero and not needed
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
-        # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        # w = [r (diagonal), presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+        dVx_dw = np.vstack((np.diag(dVx_dr), dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((np.diag(dVy_dr), dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -925,8 +925,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -938,7 +938,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1076,6 +1076,9 @@ class CCBlade(object):
             dNp_dw = dNp_dVx * dVx_dw + dNp_dVy * dVy_dw
             dTp_dw = dTp_dVx * dVx_dw + dTp_dVy * dVy_dw
 
+            dNp_dr = np.diag(dNp_dz[0, :]) + dNp_dVx * dVx_dr + dNp_dVy * dVy_dr
+            dTp_dr = np.diag(dTp_dz[0, :]) + dTp_dVx * dVx_dr + dTp_dVy * dVy_dr
+
             dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
             dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
 
@@ -1098,6 +1101,8 @@ class CCBlade(object):
             # (intended for internal use only.  not to be accessed by user)
             self._dNp_dX = dNp_dX
             self._dTp_dX = dTp_dX
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
 
@@ -1106,8 +1111,6 @@ class CCBlade(object):
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1116,6 +1119,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1317,7 +1322,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        *args,
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1514,6 +1527,8 @@ class CCBlade(object):
         Tp,
         dNp_dX,
         dTp_dX,
+        dNp_dr,
+        dTp_dr,
         dNp_dprecurve,
         dTp_dprecurve,
         r,
@@ -1556,11 +1571,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From 171afbabb08ad759923416d5a6d8bc2a5b9f00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 16/27] fix: airfoil derivatives for tables with two angles of
 attack

---
 ccblade/ccblade.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2a39342..4c0148b 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -211,14 +211,18 @@ class CCAirfoil(object):
         tck_cl = self.cl_spline.tck[:3] + self.cl_spline.degrees  # concatenate lists
         tck_cd = self.cd_spline.tck[:3] + self.cd_spline.degrees
 
-        dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
-        dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
-
         # evaluate holds the coefficients constant beyond the ends of the table
         alpha_knots, Re_knots = tck_cl[:2]
         if alpha < alpha_knots[0] or alpha > alpha_knots[-1]:
             dcl_dalpha = 0.0
             dcd_dalpha = 0.0
+        elif self.cl_spline.degrees[0] == 1:  # linear in alpha (bisplev cannot differentiate those)
+            alpha_ends = np.array([alpha_knots[0], alpha_knots[-1]])
+            dcl_dalpha = np.diff(self.cl_spline.ev(alpha_ends, Re))[0] / np.diff(alpha_ends)[0]
+            dcd_dalpha = np.diff(self.cd_spline.ev(alpha_ends, Re))[0] / np.diff(alpha_ends)[0]
+        else:
+            dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
+            dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
 
         if self.one_Re or Re < Re_knots[0] or Re > Re_knots[-1]:
             dcl_dRe = 0.0
-- 
2.43.0


From 21a61095322af92e219083b14b46550a9a9e1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 17/27] fix: adjoint of the blade line stays inside its work
 array

---
 ccblade/src/bem.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index c0816ca..4b33f42 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -1125,7 +1125,7 @@ SUBROUTINE DEFINECURVATURE_BV(n, r, rb, precurve, precurveb, presweep, &
   REAL(dp) :: tempb4(nbdirs, n-2)
   REAL(dp) :: tempb3(nbdirs, n-2)
   REAL(dp) :: tempb2(nbdirs, n-2)
-  REAL(dp) :: tempb1(nbdirs, n)
+  REAL(dp) :: tempb1(nbdirs, n-2)
   REAL(dp) :: tempb0(nbdirs)
   REAL(dp) :: tempb11(nbdirs)
   REAL(dp) :: tempb10(nbdirs)
-- 
2.43.0


From 07f4b99a28a7e6682ab97223daafb4008fd1ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 18/27] fix: in-place vector operations work for whole-number
 and single vectors

---
 ccblade/csystem.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index c68ee1f..b09e264 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -471,13 +471,13 @@ class DirectionVector(object):
         """add DirectionVector object to self (v1 += v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x += other.x
-            self.y += other.y
-            self.z += other.z
+            self.x = self.x + other.x
+            self.y = self.y + other.y
+            self.z = self.z + other.z
         else:
-            self.x += other
-            self.y += other
-            self.z += other
+            self.x = self.x + other
+            self.y = self.y + other
+            self.z = self.z + other
 
         return self
 
@@ -485,13 +485,13 @@ class DirectionVector(object):
         """subract DirectionVector object from self (v1 -= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x -= other.x
-            self.y -= other.y
-            self.z -= other.z
+            self.x = self.x - other.x
+            self.y = self.y - other.y
+            self.z = self.z - other.z
         else:
-            self.x -= other
-            self.y -= other
-            self.z -= other
+            self.x = self.x - other
+            self.y = self.y - other
+            self.z = self.z - other
 
         return self
 
@@ -515,13 +515,13 @@ class DirectionVector(object):
         """multiply self times a scalar or element by element muiltiply times another vector (v1 *= alpha or v1 *= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x *= other.x
-            self.y *= other.y
-            self.z *= other.z
+            self.x = self.x * other.x
+            self.y = self.y * other.y
+            self.z = self.z * other.z
         else:
-            self.x *= other
-            self.y *= other
-            self.z *= other
+            self.x = self.x * other
+            self.y = self.y * other
+            self.z = self.z * other
         return self
 
     def __str__(self):
-- 
2.43.0


From 63baa4329a2318953d8f3bf1ebcbf449adaca6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 19/27] fix: Reynolds number of the design twist uses the rotor
 speed in rad/s

---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..bc28113 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -593,7 +593,7 @@ class CCBladeTwist(ExplicitComponent):
             cd = np.zeros(self.n_span)
             alpha = np.zeros(self.n_span)
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
-            Re = np.array(Omega * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
+            Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
-- 
2.43.0


From b06fc5c3a4087609ed04240dd34f7e0da499ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 20/27] fix: twist component sets power, thrust, torque and
 root moment

---
 ccblade/ccblade_component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index bc28113..d4b716e 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -668,6 +668,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = myout["P"][0]
+        outputs["T"] = myout["T"][0]
+        outputs["Q"] = myout["Q"][0]
+        outputs["M"] = myout["Mb"][0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From baace5df4e013e648b4f952d8069351c8a78002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 21/27] fix: unsteady parameters of a polar whose moment breaks
 at zero lift

---
 ccblade/ccblade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 4c0148b..adaeda2 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -337,7 +337,8 @@ class CCAirfoil(object):
         # C_nalpha
         if max(np.abs(np.gradient(cm))) > 1.0e-10:
             # unsteady['C_nalpha'] = np.gradient(cn, alpha_rad)[idx_alpha0]
-            unsteady["C_nalpha"] = max(np.gradient(cn[idx_alpha0:idx_Cn1], alpha_rad[idx_alpha0:idx_Cn1]))
+            idx_slope = max(idx_Cn1, idx_alpha0 + 2)  # a slope takes two points, wherever the moment breaks
+            unsteady["C_nalpha"] = max(np.gradient(cn[idx_alpha0:idx_slope], alpha_rad[idx_alpha0:idx_slope]))
 
         else:
             unsteady["C_nalpha"] = 0.0
-- 
2.43.0


From 7a7bb4d16fb998ac2c2da93c989a55d6ce57eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 22/27] fix: plotting an airfoil in single figures (polars have
 no useCM)

---
 ccblade/airfoilprep.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 543c432..50fdaa9 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -887,13 +887,9 @@ class Airfoil(object):
             ax2 = fig2.add_subplot(111)
             figs.append(fig2)
 
-            # loop through all polars to see if we need to generate handles for cm figs
-            for p in self.polars:
-                if p.useCM == True:
-                    fig3 = plt.figure()
-                    ax3 = fig3.add_subplot(111)
-                    figs.append(fig3)
-                    break
+            fig3 = plt.figure()
+            ax3 = fig3.add_subplot(111)
+            figs.append(fig3)
 
             # loop through polars and plot
             for p in self.polars:
-- 
2.43.0


From 7541a650acc59acbaf16e6ef1ad0e956d40cae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 23/27] fix: extrapolating a polar whose data start at -90
 degrees duplicates that angle

---
 ccblade/airfoilprep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 50fdaa9..5393fcc 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -282,11 +282,15 @@ class Polar(object):
         alpha5 = alpha5[1:]
         if alpha_low <= -alpha_high:
             alpha5 = alpha5[:-1]  # alpha_low itself is part of the original data
+        if alpha_low <= -np.pi / 2:
+            alpha5 = alpha5[:0]  # the original data start at -90
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
         alpha6 = np.linspace(-np.pi + alpha_high, -np.pi / 2, nalpha)
         alpha6 = alpha6[1:]
+        if alpha_low <= -np.pi / 2:
+            alpha6 = alpha6[:-1]  # as above
         cl6, cd6 = self.__Viterna(alpha6 + np.pi, cl_adj)
 
         # -180 <-> -180 + alpha_high
-- 
2.43.0


From c94fc4b4b3e0d919d45f0c8cdbbcfba949770def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 24/27] fix: extrapolating a polar whose data end at 90 degrees
 divides by zero and gives nan moments

---
 ccblade/airfoilprep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 5393fcc..f9a002f 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -234,8 +234,8 @@ class Polar(object):
         cl_low = self.cl[0]
         cd_low = self.cd[0]
 
-        if alpha_high > np.pi / 2:
-            raise Exception("alpha[-1] > pi/2")
+        if alpha_high >= np.pi / 2:  # the matching conditions are singular at 90
+            raise Exception("alpha[-1] >= pi/2")
             return self
         if alpha_low < -np.pi / 2:
             raise Exception("alpha[0] < -pi/2")
-- 
2.43.0


From 9843c36a621212f067af82e2cb418936cc0fd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 25/27] fix: an airfoil table for which the smoothing search
 does not converge could not be loaded

---
 ccblade/ccblade.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index adaeda2..454f29e 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -86,12 +86,19 @@ class CCAirfoil(object):
         ky = min(len(Re) - 1, 3)
 
         # a small amount of smoothing is used to prevent spurious multiple solutions
-        self.cl_spline = RectBivariateSpline(alpha, Re, cl, kx=kx, ky=ky, s=0.1)
-        self.cd_spline = RectBivariateSpline(alpha, Re, cd, kx=kx, ky=ky, s=0.001)
+        self.cl_spline = self.__spline(alpha, Re, cl, kx=kx, ky=ky, s=0.1)
+        self.cd_spline = self.__spline(alpha, Re, cd, kx=kx, ky=ky, s=0.001)
         self.alpha = alpha
 
         if self.use_cm > 0:
-            self.cm_spline = RectBivariateSpline(alpha, Re, cm, kx=kx, ky=ky, s=0.0001)
+            self.cm_spline = self.__spline(alpha, Re, cm, kx=kx, ky=ky, s=0.0001)
+
+    def __spline(self, alpha, Re, coef, kx, ky, s):
+        """smoothing spline, or the interpolating one for data where the search for the amount of smoothing does not end"""
+        try:
+            return RectBivariateSpline(alpha, Re, coef, kx=kx, ky=ky, s=s)
+        except ValueError:
+            return RectBivariateSpline(alpha, Re, coef, kx=kx, ky=ky, s=0.0)
 
     @classmethod
     def initFromAerodynFile(cls, aerodynFile):
-- 
2.43.0


From 30a9bfeb53e70cd48eae49d7484cfb8af0263a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 26/27] fix: load derivatives without wind and rotation were
 nan

---
 ccblade/ccblade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 454f29e..e494b9e 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -828,7 +828,9 @@ class CCBlade(object):
 
         else:
             # print('Warning: CCBlade.__loads: Wind Velocities, Vx=0, Vy=0. If unexpected, check assigned load cases, connections, and/or workflow order.')
-            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), np.zeros(9)
+            dR_dx = np.zeros(9)
+            dR_dx[0] = 1.0  # any inflow angle is a solution, so that it depends on nothing
+            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), dR_dx
 
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
-- 
2.43.0


From df6a649fdee94e636b27958ac959bd1a2787dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 27/27] fix: blades given as whole numbers or tuples (stations
 on hub and tip were truncated to whole numbers)

---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index e494b9e..3f353a4 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -569,7 +569,7 @@ class CCBlade(object):
         derivatives : boolean, optional
             if True, derivatives along with function values will be returned for the various methods
         """
-        r = np.array(r)
+        r = np.array(r, dtype=float)
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
@@ -597,9 +597,9 @@ class CCBlade(object):
             presweep = np.zeros(len(r))
             presweepTip = 0.0
 
-        self.precurve = precurve.copy()
+        self.precurve = np.array(precurve, dtype=float)
         self.precurveTip = precurveTip
-        self.presweep = presweep.copy()
+        self.presweep = np.array(presweep, dtype=float)
         self.presweepTip = presweepTip
 
         # Enfore unique points at tip and hub
-- 
2.43.0

