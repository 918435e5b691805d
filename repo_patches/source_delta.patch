From 61c21ce98b29b17592b5695cf6eeb2403e86ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:01 +0000
Subject: [PATCH 01/23] fix: BalasinGrumiller connection: theta derivative of
 the frame-dragging function had the wrong sign and scale

d_theta of the potential used the outer radius for all four terms and the
opposite sign, so the connection was not that of the metric and test
particles did not follow geodesics.
---
 lib/BalasinGrumiller.C | 300 ++++++++++++++++++++---------------------
 1 file changed, 150 insertions(+), 150 deletions(-)

diff --git a/lib/BalasinGrumiller.C b/lib/BalasinGrumiller.C
index ad883d8..e41f16f 100644
--- a/lib/BalasinGrumiller.C
+++ b/lib/BalasinGrumiller.C
@@ -1,150 +1,150 @@
-﻿/*
-    Copyright 2025 Filipe Costa, Frédéric Vincent, Thibaut Paumard
-
-    This file is part of Gyoto.
-
-    Gyoto is free software: you can redistribute it and/or modify
-    it under the terms of the GNU General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Gyoto is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU General Public License for more details.
-
-    You should have received a copy of the GNU General Public License
-    along with Gyoto.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-
-#include <iostream>
-#include <string>
-#include <sstream>
-
-
-#include "GyotoUtils.h"
-#include "GyotoWorldline.h"
-#include "GyotoBalasinGrumiller.h"
-#include "GyotoError.h"
-#include "GyotoProperty.h"
-#include <cmath>
-
-using namespace std ; 
-using namespace Gyoto ; 
-using namespace Gyoto::Metric ;
-
-// **** Section I - Contructor, metric and Christoffel symbols ******
-GYOTO_PROPERTY_START(BalasinGrumiller, "your custom description")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, V0, V0value,
-		      "V0 (adimensioned, 0.000733333).")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, R, Rvalue, "R (kpc, 100).")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, r0, r0value, "r0 (kpc, 1).")
-GYOTO_PROPERTY_END(BalasinGrumiller, Generic::properties)
-
-BalasinGrumiller::BalasinGrumiller()
-  : Gyoto::Metric::Generic(GYOTO_COORDKIND_SPHERICAL, "BalasinGrumiller"),
-V0value_(0.000733333), Rvalue_(100.), r0value_(1.) {
-  } 
-
-//cloner
-BalasinGrumiller* BalasinGrumiller::clone() const { return new BalasinGrumiller(*this); }
-
-// Mutators
-void BalasinGrumiller::V0value(const double a) {
-  V0value_=a;
- tellListeners();
-}
-
-void BalasinGrumiller::Rvalue(const double a) {
-  Rvalue_=a;
- tellListeners();
-}
-
-void BalasinGrumiller::r0value(const double a) {
-  r0value_=a;
- tellListeners();
-}
-
-// Accessors
-double BalasinGrumiller::V0value() const { return V0value_ ; }
-double BalasinGrumiller::Rvalue() const { return Rvalue_ ; }
-double BalasinGrumiller::r0value() const { return r0value_ ; }
-
-void BalasinGrumiller::gmunu(double g[4][4], const double * pos) const
-{
-double r = pos[1]; // Extract radial coordinate
-double theta = pos[2]; // Extract theta coordinate
-  double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
-         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  // double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-  //        - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-  //        + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-  //        + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  // double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-  //        1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-  //        - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-  //        - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-  //        + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-  size_t mu, nu;
-  for (mu=0; mu<4; ++mu)
-    for (nu=mu+1; nu<4; ++nu)
-      g[mu][nu]=g[nu][mu]=0;
-	
-g[0][0] = - 1.0;
-g[0][3] = g[3][0]= W;
-g[1][1] = 1.0;
-g[2][2] = r * r;
-g[3][3] = r * r * sin(theta) * sin(theta)-W*W; // sin(theta)^2
-
-}
-
-int BalasinGrumiller::christoffel(double dst[4][4][4], const double pos[8]) const {
-//  GYOTO_DEBUG<<endl;
-  size_t alpha, mu, nu;
-  for (alpha=0; alpha<4; ++alpha)
-    for (mu=0; mu<4; ++mu)
-      for (nu=0; nu<4; ++nu)
-	dst[alpha][mu][nu]=0.; // Initialize to zero
-
-  double r=pos[1], theta=pos[2];
-double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
-         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-         1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-
-dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[0][0][2] = dst[0][2][0] = (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[0][1][3] = dst[0][3][1] = -0.5*(-2.0*W*r + DWDr*r*r + DWDr*W*W/(sin(theta)*sin(theta)))/(r*r);
-dst[0][2][3] = dst[0][3][2] = -0.5*DWDth + W*cos(theta)/sin(theta) - (DWDth*W*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[1][0][3] = dst[1][3][0] = -0.5*DWDr;
-dst[1][2][2] = -r;
-dst[1][3][3] = DWDr*W - r*sin(theta)*sin(theta);
-dst[2][0][3] = dst[2][3][0] = -0.5*DWDth/(r*r);
-dst[2][1][2] = dst[2][2][1] = 1.0/r;
-dst[2][3][3] = (DWDth*W)/(r*r) - cos(theta)*sin(theta);
-dst[3][0][1] = dst[3][1][0] = DWDr/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][0][2] = dst[3][2][0] = DWDth/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][1][3] = dst[3][3][1] = 1.0/r - (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][2][3] = dst[3][3][2] = cos(theta)/sin(theta) - (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
-
-
-  return 0;
-}
-
+﻿/*
+    Copyright 2025 Filipe Costa, Frédéric Vincent, Thibaut Paumard
+
+    This file is part of Gyoto.
+
+    Gyoto is free software: you can redistribute it and/or modify
+    it under the terms of the GNU General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Gyoto is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU General Public License for more details.
+
+    You should have received a copy of the GNU General Public License
+    along with Gyoto.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+
+#include <iostream>
+#include <string>
+#include <sstream>
+
+
+#include "GyotoUtils.h"
+#include "GyotoWorldline.h"
+#include "GyotoBalasinGrumiller.h"
+#include "GyotoError.h"
+#include "GyotoProperty.h"
+#include <cmath>
+
+using namespace std ; 
+using namespace Gyoto ; 
+using namespace Gyoto::Metric ;
+
+// **** Section I - Contructor, metric and Christoffel symbols ******
+GYOTO_PROPERTY_START(BalasinGrumiller, "your custom description")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, V0, V0value,
+		      "V0 (adimensioned, 0.000733333).")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, R, Rvalue, "R (kpc, 100).")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, r0, r0value, "r0 (kpc, 1).")
+GYOTO_PROPERTY_END(BalasinGrumiller, Generic::properties)
+
+BalasinGrumiller::BalasinGrumiller()
+  : Gyoto::Metric::Generic(GYOTO_COORDKIND_SPHERICAL, "BalasinGrumiller"),
+V0value_(0.000733333), Rvalue_(100.), r0value_(1.) {
+  } 
+
+//cloner
+BalasinGrumiller* BalasinGrumiller::clone() const { return new BalasinGrumiller(*this); }
+
+// Mutators
+void BalasinGrumiller::V0value(const double a) {
+  V0value_=a;
+ tellListeners();
+}
+
+void BalasinGrumiller::Rvalue(const double a) {
+  Rvalue_=a;
+ tellListeners();
+}
+
+void BalasinGrumiller::r0value(const double a) {
+  r0value_=a;
+ tellListeners();
+}
+
+// Accessors
+double BalasinGrumiller::V0value() const { return V0value_ ; }
+double BalasinGrumiller::Rvalue() const { return Rvalue_ ; }
+double BalasinGrumiller::r0value() const { return r0value_ ; }
+
+void BalasinGrumiller::gmunu(double g[4][4], const double * pos) const
+{
+double r = pos[1]; // Extract radial coordinate
+double theta = pos[2]; // Extract theta coordinate
+  double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
+         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  // double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+  //        - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+  //        + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+  //        + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  // double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
+  //        1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+  //        - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+  //        - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+  //        + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+  size_t mu, nu;
+  for (mu=0; mu<4; ++mu)
+    for (nu=mu+1; nu<4; ++nu)
+      g[mu][nu]=g[nu][mu]=0;
+	
+g[0][0] = - 1.0;
+g[0][3] = g[3][0]= W;
+g[1][1] = 1.0;
+g[2][2] = r * r;
+g[3][3] = r * r * sin(theta) * sin(theta)-W*W; // sin(theta)^2
+
+}
+
+int BalasinGrumiller::christoffel(double dst[4][4][4], const double pos[8]) const {
+//  GYOTO_DEBUG<<endl;
+  size_t alpha, mu, nu;
+  for (alpha=0; alpha<4; ++alpha)
+    for (mu=0; mu<4; ++mu)
+      for (nu=0; nu<4; ++nu)
+	dst[alpha][mu][nu]=0.; // Initialize to zero
+
+  double r=pos[1], theta=pos[2];
+double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
+         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  double DWDth = (V0value_ * r * sin(theta) * (
+         - Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         + Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + r0value_ / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         - r0value_ / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+
+dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[0][0][2] = dst[0][2][0] = (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[0][1][3] = dst[0][3][1] = -0.5*(-2.0*W*r + DWDr*r*r + DWDr*W*W/(sin(theta)*sin(theta)))/(r*r);
+dst[0][2][3] = dst[0][3][2] = -0.5*DWDth + W*cos(theta)/sin(theta) - (DWDth*W*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[1][0][3] = dst[1][3][0] = -0.5*DWDr;
+dst[1][2][2] = -r;
+dst[1][3][3] = DWDr*W - r*sin(theta)*sin(theta);
+dst[2][0][3] = dst[2][3][0] = -0.5*DWDth/(r*r);
+dst[2][1][2] = dst[2][2][1] = 1.0/r;
+dst[2][3][3] = (DWDth*W)/(r*r) - cos(theta)*sin(theta);
+dst[3][0][1] = dst[3][1][0] = DWDr/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][0][2] = dst[3][2][0] = DWDth/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][1][3] = dst[3][3][1] = 1.0/r - (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][2][3] = dst[3][3][2] = cos(theta)/sin(theta) - (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
+
+
+  return 0;
+}
+
-- 
2.43.0


From f7ec9248ba1ec5424c17731449aca407d7210db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:01 +0000
Subject: [PATCH 02/23] fix: KonoplyaRezzollaZhidenko: keep the a00 asymptotic
 parameter in the radial derivative of N2

The connection was inconsistent with the metric as soon as the third
asymptotic deformation was non-zero.
---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..4f6b23c 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -445,7 +445,7 @@ double KonoplyaRezzollaZhidenko::drN2(const double rr, const double th) const{
          k23 = DefineHorizonParameters(HorizonParameter::k23, r0);
          
   double drN2 = r0/rr2*(1.-epsilon0*r0/rr+(a00-epsilon0+k00)*r02/rr2+a01*r03/rr3)
-              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(k00-epsilon0)*r02/rr3-3.*a01*r03/rr4)
+              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(a00-epsilon0+k00)*r02/rr3-3.*a01*r03/rr4)
               -(2.*(k20+epsilon2)*r02/rr3
               +k21*k22*r04/rr5/((1.+(k23+k22)*(1.-r0/rr))*(1.+(k23+k22)*(1.-r0/rr)))
               +3.*(k21/(1.+k22*(1.-r0/rr)/(1.+k23*(1.-r0/rr)))+a20)*r03/rr4
-- 
2.43.0


From 6e217b029bc76cdd2f037b4a54e51abf36aa5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 03/23] fix: RezzollaZhidenko::circularVelocity honours the
 direction of rotation

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..0f170c1 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -309,7 +309,7 @@ void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 
   vel[1] = vel[2] = 0.;
   double Np = Nprime(rr), NN=sqrt(N2(rr));
-  vel[3] = sqrt(Np*NN/rr); // this is Omega=dphi/dt
+  vel[3] = dir*sqrt(Np*NN/rr); // this is Omega=dphi/dt
 
   vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
-- 
2.43.0


From 91f9ff83bacea2fae968a48eab9ae0bf9f2743e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 04/23] fix: ChernSimons::circularVelocity honours the
 direction of rotation

---
 lib/ChernSimons.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..1faf716 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -319,7 +319,7 @@ void ChernSimons::circularVelocity(double const coor[4], double vel[4],
   // This is Omega_CS:
   vel[3] =
     (
-     aa*fact+56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
+     aa*fact+dir*56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
      )
     /
     (
-- 
2.43.0


From 65ec3bfa41473da234fde5fd5294d1be87bc971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 05/23] fix: KerrKS::circularVelocity returns the circular
 geodesic (spin term was missing)

---
 lib/KerrKS.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KerrKS.C b/lib/KerrKS.C
index ee28cf9..3351289 100644
--- a/lib/KerrKS.C
+++ b/lib/KerrKS.C
@@ -271,7 +271,7 @@ void KerrKS::circularVelocity(double const coor[4], double vel[4],
   }
 
   double rcross=sqrt ( coor[1]*coor[1] + coor[2]*coor[2] - spin_*spin_);
-  double Omega=dir*pow(rcross*rcross*rcross, -0.5);//angular Keplerian velocity
+  double Omega=1./(dir*pow(rcross, 1.5)+spin_);//angular velocity of the circular geodesic
   
   vel[1] = -coor[2]*Omega;
   vel[2] =  coor[1]*Omega;
-- 
2.43.0


From da185549a2774eb185d36f8c6cce38eb4ffbb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 06/23] fix: KonoplyaRezzollaZhidenko::circularVelocity honours
 the direction of rotation

---
 include/GyotoKonoplyaRezzollaZhidenko.h | 2 +-
 lib/KonoplyaRezzollaZhidenko.C          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/GyotoKonoplyaRezzollaZhidenko.h b/include/GyotoKonoplyaRezzollaZhidenko.h
index e5513db..319d8b4 100644
--- a/include/GyotoKonoplyaRezzollaZhidenko.h
+++ b/include/GyotoKonoplyaRezzollaZhidenko.h
@@ -92,7 +92,7 @@ class Gyoto::Metric::KonoplyaRezzollaZhidenko
   double dthW(const double rr, const double th) const;
   double drK2(const double rr, const double th) const;
   double dthK2(const double rr, const double th) const;
-  double KeplerianSpecificAngularMomentum(const double rr, const double th) const;
+  double KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir=1.) const;
   double KeplerianAngularVelocity(const double rr, const double th, const double ell) const;
   double KeplerianEnergy(const double rr, const double th, const double Omega) const;
   double KeplerianAngularMomentum(const double rr, const double th, const double Omega) const;
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 4f6b23c..240bde1 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -669,7 +669,7 @@ int KonoplyaRezzollaZhidenko::isStopCondition(double const * const coord) const
   return coord[1] < rsink ;
 }
 
-double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th) const {
+double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir) const {
   double rr2 = rr*rr, rr3 = rr2*rr, 
          sinth = sin(th), sinth2 = sinth*sinth;
   double NN2 = N2(rr, th), NN22 = NN2*NN2, drNN2 = drN2(rr,th),
@@ -683,10 +683,10 @@ double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double r
   double gtt = -(NN2-WW2*sinth2)/KK2,
          gtp = -WW*rr*sinth2,
          gpp = KK2*rr2*sinth2;
-  // Positive Omega for for a prograde motion
+  // Positive Omega for for a prograde motion (dir=1), negative for dir=-1
   double Omega1 = -(gtp+ell1*gtt)/(gpp+ell1*gtp);//,
     //Omega2 = -(gtp+ell2*gtt)/(gpp+ell2*gtp);
-  double ell = (Omega1 > 0) ? ell1 : ell2;       
+  double ell = (dir*Omega1 > 0) ? ell1 : ell2;
   return ell;
 } 
 
@@ -756,7 +756,7 @@ void KonoplyaRezzollaZhidenko::circularVelocity(double const coor[4], double vel
 # endif
   double th = coor[2], sinth = sin(th), rr = coor[1]*sinth;// rr projected on equat plane // Irene: why?? 
   double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
-  double ell = KeplerianSpecificAngularMomentum(rr,th),
+  double ell = KeplerianSpecificAngularMomentum(rr,th,dir),
          Omega = KeplerianAngularVelocity(rr,th,ell);
 
   vel[1] = vel[2] = 0.;
-- 
2.43.0


From fd048a8117630ddbec7346d75c48f41c642b09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:06 +0000
Subject: [PATCH 07/23] fix: Worldline::getCoord(index, coord) wrote the
 velocity past the end of a 4-element state

---
 lib/Worldline.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..11ff4a8 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1566,7 +1566,7 @@ void Worldline::getCoord(size_t index, state_t &coord) const {
   coord[1] = x1_[index];
   coord[2] = x2_[index];
   coord[3] = x3_[index];
-  if (sz>=4) {
+  if (sz>=8) {
     coord[4] = x0dot_[index];
     coord[5] = x1dot_[index];
     coord[6] = x2dot_[index];
-- 
2.43.0


From 00efe60e0799dac0a83836df4adcd7c9df9540b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:06 +0000
Subject: [PATCH 08/23] fix: Worldline::getCartesian dereferenced NULL position
 arrays in spherical coordinates

---
 lib/Worldline.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 11ff4a8..8058ccb 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -777,9 +777,9 @@ void Worldline::getCartesian(double const * const dates, size_t const n_dates,
       costheta = cos(x2[di]); sintheta = sin(x2[di]); 
       cosphi   = cos(x3[di]); sinphi   = sin(x3[di]);
       // x, y, z
-      x[di] = r * sintheta * cosphi;
-      y[di] = r * sintheta * sinphi;
-      z[di] = r * costheta;
+      if (x) x[di] = r * sintheta * cosphi;
+      if (y) y[di] = r * sintheta * sinphi;
+      if (z) z[di] = r * costheta;
 
       if (xprime || yprime || zprime) {
 	// dx/dt, dy/dt, dz/dt
-- 
2.43.0


From feee3357427b272b83cc0cf2ffa80ba4b5733568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 09/23] fix: Worldline::save_txyz read one element past the end
 of the trajectory

---
 lib/Worldline.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 8058ccb..792bb23 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1415,7 +1415,7 @@ void Worldline::save_txyz(char * filename, const double t1, const double mass_su
 
   // DATA
 
-  for (n=0;n<=nelem;++n) {
+  for (n=0;n<nelem;++n) {
     fichierxyz << setprecision(prec) << setw(width) << t[n] << "  "
 	       << setprecision(prec) << setw(width) << x[n] << "  "
 	       << setprecision(prec) << setw(width) << y[n] << "  "
-- 
2.43.0


From f9d5cd8c5076bab37c9e63abbba9ae163a3fc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 10/23] fix: Worldline::checkBasis did not return the corrected
 polarisation basis

---
 lib/Worldline.C | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 792bb23..6f68b82 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1711,5 +1711,13 @@ void Worldline::checkBasis(state_t &coord) const {
     // Find a way to reconstruct the polar basis to solve this issue.
   }
 
+  // Write the (corrected) basis back
+  if (violation <= normtol_) {
+    for (int ii=0;ii<4;ii++){
+      coord[ii+8]=Ephi[ii];
+      coord[ii+12]=Etheta[ii];
+    }
+  }
+
   GYOTO_DEBUG << "done" << endl;
 }
-- 
2.43.0


From 50e9145910c877e5e005370c2eed62a7fc96621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 11/23] fix: reorthonormalizeBasis exchanged the two
 polarisation vectors

---
 lib/WorldlineIntegState.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..78bc874 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -480,8 +480,8 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
 
   // Write output in coord
   for (int ii=0; ii<4; ii++) {
-    coord[ii+8]  = Etheta[ii];
-    coord[ii+12] = Ephi[ii];
+    coord[ii+8]  = Ephi[ii];
+    coord[ii+12] = Etheta[ii];
   }
 }
 
-- 
2.43.0


From ef8f3312b5e1911e1efa29cc34e51f408b1dd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 12/23] fix: IntegState::Boost::kind returned a name its
 constructor refuses

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 78bc874..f92dd0d 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -423,7 +423,7 @@ std::string Worldline::IntegState::Boost::kind() {
   if (kind_== Kind::runge_kutta_cash_karp54) return "runge_kutta_cash_karp54";
   if (kind_== Kind::runge_kutta_fehlberg78) return "runge_kutta_fehlberg78";
   if (kind_== Kind::runge_kutta_dopri5) return "runge_kutta_dopri5";
-  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp5";
+  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp54_classic";
   GYOTO_ERROR("unknown enum value");
   return "error";
 } 
-- 
2.43.0


From 5816726b4c44162875ddf989b5a971ae64a71d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 13/23] fix: copying a worldline forgot the 3+1 integration
 setting

---
 lib/WorldlineIntegState.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index f92dd0d..fd3305f 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * state = new Legacy(newparent);
+  state -> integ31(integ_31_);
+  return state;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
@@ -234,7 +238,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * state = new Boost(newparent, kind_);
+  state -> integ31(integ_31_);
+  return state;
+}
 
 
 
-- 
2.43.0


From 73ddeaf4e6c4fe9bcdc3b04f113e26e74499ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 14/23] fix: IntegState::Boost::doStep checked the angles of
 the 3+1 state as if it were a 4D one

---
 lib/WorldlineIntegState.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index fd3305f..af9493d 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -401,10 +401,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
 
   // We call the Boost stepper
   do_step_(xx, step);
-  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&xx[0]);
-  }
-  
+
   // Transform back to original vector coord
   if (integ_31_==false) coordout = xx;
   else{
@@ -425,6 +422,9 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
   }
+  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
+    line_->checkPhiTheta(&coordout[0]);
+  }
 }
 
 std::string Worldline::IntegState::Boost::kind() {
-- 
2.43.0


From 84c08b734d37eade3242d73ce073a4e20003f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 15/23] fix: norm check read past the end of the 7-element 3+1
 state

---
 include/GyotoWorldline.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 1c3713e..4f2ed62 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -1127,6 +1127,9 @@ class Gyoto::Worldline::IntegState::Boost : public Generic {
       // Standard Boost numerical error
       Value err_default = checker.error(algebra, x_old, dxdt_old, x_err, dt);
       
+      // In the 3+1 formalism the state does not hold a 4-velocity
+      if (x_old.size() < 8) return err_default;
+
       // Compute new vector (4-position, 4-velocity, polar basis if parallel_transport)
       state_t x_new=x_old;
       do_step_(x_new, dt);
-- 
2.43.0


From 9ba683dae76a45b47a023f43d541e918ab183102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 16/23] fix: runge_kutta_dopri5 reused the derivative of an
 unrelated state

---
 lib/WorldlineIntegState.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index af9493d..c7d1736 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -589,6 +589,9 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         mutable
         -> controlled_step_result
       {
+        // the state may have been changed since the previous step: do
+        // not reuse the derivative computed at the end of that step
+        controlled.reset();
         return controlled.try_step(this->system_, inout, t, h);
       };
       do_step_ =
@@ -596,6 +599,7 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         (state_t &inout, double h)
         mutable
       {
+        controlled.stepper().reset();
         controlled.stepper().do_step(this->system_, inout, 0., h);
       };
       break;
-- 
2.43.0


From 6145ec2308d82949f0bbb1a0c0f9be6328efcabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:12 +0000
Subject: [PATCH 17/23] fix: Screen: rotate the polarisation basis with Dangle1
 and Dangle2 like the ray

---
 lib/Screen.C | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..d430061 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -808,6 +808,19 @@ void Screen::getRayTriad(double angle1, double angle2,
     double co, so; sincos(euler_[0], &so, &co); // changing name from p (for paln) to o (for Omega) to not confuse with phi
     double Ephi_screenBasis[3] = {-sb*sb*(1-ca)-ca, sb*cb*(1-ca), cb*sa};
     double Etheta_screenBasis[3] = {-sb*cb*(1-ca), (cb*cb*(1-ca)+ca), -sb*sa};
+    if (anglekind_ != spherical_angles) {
+      // Same rotations as applied to the ray itself
+      double c1, s1; sincos(dangle1_, &s1, &c1);
+      double c2, s2; sincos(dangle2_, &s2, &c2);
+      double * const basis[2] = {Ephi_screenBasis, Etheta_screenBasis};
+      for (int k=0; k<2; ++k) {
+	double * const e = basis[k];
+	double rot[3] = {c1*e[0]+s1*e[2], e[1], -s1*e[0]+c1*e[2]};
+	e[0]=rot[0];
+	e[1]=c2*rot[1]-s2*rot[2];
+	e[2]=s2*rot[1]+c2*rot[2];
+      }
+    }
     if (observerkind_==GYOTO_OBSKIND_ATINFINITY){
       switch (gg_ -> coordKind()) {
       case GYOTO_COORDKIND_SPHERICAL:
-- 
2.43.0


From d420dbea8cf71a1090c2568355bec8564a400fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 18/23] fix: Screen: Cartesian polarisation basis orthogonal to
 the ray for any inclination

---
 lib/Screen.C | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index d430061..b06c0c2 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -871,21 +871,17 @@ void Screen::getRayTriad(double angle1, double angle2,
       }
       case GYOTO_COORDKIND_CARTESIAN:
       {        
-        double rr = sqrt(coord[1]*coord[1] + coord[2]*coord[2] +coord[3]*coord[3]),
-          theta = acos(coord[3]/rr),
-          phi = atan2(coord[2],coord[1]);
-        double ct, st; sincos(theta, &st, &ct);
-        double cp, sp; sincos(phi, &sp, &cp);
-
-        Ephi[0]=0.;
-        Ephi[1]=(Ephi_screenBasis[0]*(-co*sp-so*ct*cp)+Ephi_screenBasis[1]*(-so*sp+co*ct*cp)-Ephi_screenBasis[2]*st*cp);      
-        Ephi[2]=(Ephi_screenBasis[0]*(co*cp-so*ct*sp)+Ephi_screenBasis[1]*(so*cp+co*ct*sp)-Ephi_screenBasis[2]*st*sp);
-        Ephi[3]=(Ephi_screenBasis[0]*st*so-Ephi_screenBasis[1]*st*co-Ephi_screenBasis[2]*ct);
-        // Etheta
-        Etheta[0]=0.;
-        Etheta[1]=(Etheta_screenBasis[0]*(-co*sp-so*ct*cp)+Etheta_screenBasis[1]*(-so*sp+co*ct*cp)-Etheta_screenBasis[2]*st*cp);      
-        Etheta[2]=(Etheta_screenBasis[0]*(co*cp-so*ct*sp)+Etheta_screenBasis[1]*(so*cp+co*ct*sp)-Etheta_screenBasis[2]*st*sp);
-        Etheta[3]=(Etheta_screenBasis[0]*st*so-Etheta_screenBasis[1]*st*co-Etheta_screenBasis[2]*ct);
+	// Same projection as the ray itself, valid for any inclination
+	Ephi[0]=Ephi[1]=Ephi[2]=Ephi[3]=0.;
+	Etheta[0]=Etheta[1]=Etheta[2]=Etheta[3]=0.;
+	for (i=0;i<3;++i) {
+	  Ephi[1]+=Ephi_screenBasis[i]*ex_[i];
+	  Ephi[2]+=Ephi_screenBasis[i]*ey_[i];
+	  Ephi[3]+=Ephi_screenBasis[i]*ez_[i];
+	  Etheta[1]+=Etheta_screenBasis[i]*ex_[i];
+	  Etheta[2]+=Etheta_screenBasis[i]*ey_[i];
+	  Etheta[3]+=Etheta_screenBasis[i]*ez_[i];
+	}
         break;
       }
       default:
-- 
2.43.0


From e7aff3efa893837948270e58b8cb72daafa05229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 19/23] fix: Screen: rays not mirrored in spherical coordinates
 when the inclination is outside [0, pi]

---
 lib/Screen.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index b06c0c2..629337b 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -732,7 +732,9 @@ void Screen::getRayTriad(double angle1, double angle2,
 	double sp=sin(euler_[0]);
 	double cp=cos(euler_[0]);
 	coord[6]=(-sp*vel[0]+cp*vel[1])/sqrt(gthth);
-	coord[7]=( cp*vel[0]+sp*vel[1])/sqrt(gphph);
+	// theta is outside [0, pi] if the inclination is
+	double sphph = (sin(coord[2])<0.) ? -sqrt(gphph) : sqrt(gphph);
+	coord[7]=( cp*vel[0]+sp*vel[1])/sphph;
       }
       break;
     default:
@@ -827,20 +829,21 @@ void Screen::getRayTriad(double angle1, double angle2,
       {
         double grr=gg_->gmunu(coord,1,1), 
           gthth=gg_->gmunu(coord,2,2), gphph=gg_->gmunu(coord,3,3);
+        double sphph = (sin(coord[2])<0.) ? -sqrt(gphph) : sqrt(gphph);
         // Ephi
         Ephi[0]=0.;
         Ephi[1]=-Ephi_screenBasis[2]/sqrt(grr);      
         Ephi[2]=(-so*Ephi_screenBasis[0]
           +co*Ephi_screenBasis[1])/sqrt(gthth);
         Ephi[3]=( co*Ephi_screenBasis[0]
-            +so*Ephi_screenBasis[1])/sqrt(gphph);
+            +so*Ephi_screenBasis[1])/sphph;
         // Etheta
         Etheta[0]=0.;
         Etheta[1]=-Etheta_screenBasis[2]/sqrt(grr);
         Etheta[2]=(-so*Etheta_screenBasis[0]
             +co*Etheta_screenBasis[1])/sqrt(gthth);
         Etheta[3]=( co*Etheta_screenBasis[0]
-              +so*Etheta_screenBasis[1])/sqrt(gphph);
+              +so*Etheta_screenBasis[1])/sphph;
         //cout << "In Screen init Ephi= " << Ephi[0] << " " << Ephi[1] << " " << coord[1]*Ephi[2] << " " << coord[1]*abs(sin(coord[2]))*Ephi[3] << endl;
         //cout << "In Screen init Etheta= " << Etheta[0] << " " << Etheta[1] << " " << coord[1]*Etheta[2] << " " << coord[1]*abs(sin(coord[2]))*Etheta[3] << endl;
         //throwError("test Eth");
-- 
2.43.0


From 64270ee8ffc1590c726a2085e1e7ee878eab3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:15 +0000
Subject: [PATCH 20/23] fix: Screen: forget the mask file name together with
 the mask when the resolution changes

---
 lib/Screen.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 629337b..34c7d4e 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1310,7 +1310,7 @@ size_t Screen::resolution() const { return npix_; }
 void Screen::resolution(size_t n) {
   if (mask_ && n != npix_) {
     GYOTO_INFO << "Changing resolution: deleting mask" << endl;
-    delete[] mask_; mask_=NULL;
+    delete[] mask_; mask_=NULL; mask_filename_="";
   }
   npix_ = n;
 }
-- 
2.43.0


From 8f37511c366e7a299bcf881d72dee19ef6a65603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:35 +0000
Subject: [PATCH 21/23] fix: FromMeters converted a length to a time by
 multiplying by c

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..ca0ed9e 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -220,7 +220,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0


From 98b52b9e5561a034be60a117cae1cb6117769350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:35 +0000
Subject: [PATCH 22/23] fix: Scenery::requestedQuantitiesString modified the
 string of its caller

---
 lib/Scenery.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 27023a1..e2d1725 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -815,7 +815,8 @@ void Scenery::setRequestedQuantities(Gyoto::Quantity_t quant) {
 }
 void Scenery::requestedQuantitiesString(std::string const &squant) {
   quantities_=0;
-  char * tk = strtok(const_cast<char*>(squant.c_str()), " \t\n");
+  std::string buf(squant); // strtok modifies its argument
+  char * tk = strtok(&buf[0], " \t\n");
   string tkk="", quant="", unit = "";
   size_t first = 0, last = 0;
 
-- 
2.43.0


From 8038efa51accdbc24d026d87fc77114519214ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 23/23] fix: Screen: beyond dMax, scale the angular offsets
 like the angles and leave azimuths alone

---
 lib/Screen.C | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 34c7d4e..6086156 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -552,6 +552,7 @@ void Screen::getRayTriad(double angle1, double angle2,
   getObserverPos(coord);
 
   double robs = distance_ / gg_->unitLength();
+  double dangle1 = dangle1_, dangle2 = dangle2_;
 
   if (robs > dmax_) {
     // scale
@@ -570,7 +571,11 @@ void Screen::getRayTriad(double angle1, double angle2,
       throwError("Unimplemented coordkind");
     }
     angle1 *= scale;
-    angle2 *= scale;
+    dangle1 *= scale;
+    if (anglekind_ != spherical_angles) { // else, angle2 is an azimuth
+      angle2 *= scale;
+      dangle2 *= scale;
+    }
   }
 
   coord[4]=coord[5]=coord[6]=coord[7]=0.;//initializing 4-velocity
@@ -583,8 +588,8 @@ void Screen::getRayTriad(double angle1, double angle2,
       GYOTO screen labelled by spherical
       angles a and b (see Fig. in user guide)
      */
-    spherical_angle_a = angle1+dangle1_;
-    spherical_angle_b = angle2+dangle2_;
+    spherical_angle_a = angle1+dangle1;
+    spherical_angle_b = angle2+dangle2;
     break;
   case rectilinear:
     spherical_angle_a = atan(sqrt(angle1*angle1+angle2*angle2));
@@ -665,11 +670,11 @@ void Screen::getRayTriad(double angle1, double angle2,
 		 -cos(spherical_angle_a)};
   if (anglekind_ != spherical_angles) {
     // Rotate around Y by dangle1, then around new X by dangle2
-    double c, s; sincos(dangle1_, &s, &c);
+    double c, s; sincos(dangle1, &s, &c);
     double vel_rot[3]={c*vel[0]+s*vel[2],
 		       vel[1],
 		       -s*vel[0]+c*vel[2]};
-    sincos(dangle2_, &s, &c);
+    sincos(dangle2, &s, &c);
     vel[0]=vel_rot[0];
     vel[1]=c*vel_rot[1]-s*vel_rot[2];
     vel[2]=s*vel_rot[1]+c*vel_rot[2];
@@ -812,8 +817,8 @@ void Screen::getRayTriad(double angle1, double angle2,
     double Etheta_screenBasis[3] = {-sb*cb*(1-ca), (cb*cb*(1-ca)+ca), -sb*sa};
     if (anglekind_ != spherical_angles) {
       // Same rotations as applied to the ray itself
-      double c1, s1; sincos(dangle1_, &s1, &c1);
-      double c2, s2; sincos(dangle2_, &s2, &c2);
+      double c1, s1; sincos(dangle1, &s1, &c1);
+      double c2, s2; sincos(dangle2, &s2, &c2);
       double * const basis[2] = {Ephi_screenBasis, Etheta_screenBasis};
       for (int k=0; k<2; ++k) {
 	double * const e = basis[k];
-- 
2.43.0

