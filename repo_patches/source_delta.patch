From 6dfee55a77c10310c79a5f789e541a0f94b984a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 01/12] fix: bend_rounded with rc passed a default of 5 bend
 diameters on to the method

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..f367ebc 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1511,7 +1511,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
         bend_diameters2 = bend_diameters
         rc = Di*bend_diameters2
     else:
-        bend_diameters2 = bend_diameters if bend_diameters is not None else 5.0
+        bend_diameters2 = bend_diameters if bend_diameters is not None else rc/Di
 
     if method == "Rennels":
         angle = radians(angle)
-- 
2.43.0


From e2f19ee607ae4ac9dd6793ca6ba752b7e39ede80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 02/12] fix: diffuser_conical_Crane took a negative angle when
 given the length

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index f367ebc..1b0f5b4 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From 660d317ebfaca1b7a219c69648027c93af58699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 03/12] fix: K_tilting_disk_check_valve_Crane sizes of 9 and 15
 inch at 15 degrees belong to the smaller class

---
 fluids/fittings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 1b0f5b4..a868cd4 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -4078,10 +4078,10 @@ def K_tilting_disk_check_valve_Crane(D: float, angle: float, fd: float | None=No
             return 20*fd
     else:
         # 15 degree case
-        if D < 0.2286:
+        if D <= 0.2286:
             # 2-8 inches
             return 120*fd
-        elif D < 0.381:
+        elif D <= 0.381:
             # 10-14 inches
             return 90*fd
         else:
-- 
2.43.0


From ffa23cb88b21e5afc4cd1a1267f8c08e0636b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 04/12] fix: size_tee one-jet exponent above B=0.7 starts from
 1.33, not 1/33

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From e0259e46743be40abde50a6f1e79f7ca10be1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:21 +0000
Subject: [PATCH 05/12] fix: size_control_valve_l raised NameError instead of
 returning when the piping iteration does not converge without full_output

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..77f9dc3 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,11 +742,11 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
-                    ans["warning"] = "Not converged in inner loop"
                 if full_output:
                     ans["FLP"] = FLP
                     ans["FP"] = FP
+                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                        ans["warning"] = "Not converged in inner loop"
                 return C
 
             C = iterate_piping_turbulent_l(Ci, 0)
-- 
2.43.0


From d1472fb94547c4953c4e5920d46f95f85b42b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 06/12] fix: vertical torispherical heads given by f and k
 counted for nothing in V_tank, V_from_h and SA_from_h unless their depth was
 passed as well

---
 fluids/geometry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..b664c43 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1641,11 +1641,13 @@ def V_tank(D: float, L: float, horizontal: bool=True, sideA: str | None=None, si
             raise ValueError("sideA_f and sideA_k are required when sideA is 'torispherical'")
         sideA_f2 = sideA_f
         sideA_k2 = sideA_k
+        sideA_a = a_torispherical(D, sideA_f, sideA_k)
     if sideB == "torispherical":
         if sideB_f is None or sideB_k is None:
             raise ValueError("sideB_f and sideB_k are required when sideB is 'torispherical'")
         sideB_f2 = sideB_f
         sideB_k2 = sideB_k
+        sideB_a = a_torispherical(D, sideB_f, sideB_k)
 
     R = 0.5*D
     sideA_V = sideB_V = lateral_V = 0.0
@@ -2868,11 +2870,13 @@ def V_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str | N
             raise ValueError("sideA_f and sideA_k are required when sideA is 'torispherical'")
         sideA_f2 = sideA_f
         sideA_k2 = sideA_k
+        sideA_a = a_torispherical(D, sideA_f, sideA_k)
     if sideB == "torispherical":
         if sideB_f is None or sideB_k is None:
             raise ValueError("sideB_f and sideB_k are required when sideB is 'torispherical'")
         sideB_f2 = sideB_f
         sideB_k2 = sideB_k
+        sideB_a = a_torispherical(D, sideB_f, sideB_k)
 
     R = 0.5*D
     V = 0.0
@@ -3068,6 +3072,10 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
             SA += A_partial_circle(D, h)
         SA += L*D*acos((D - h - h)/D)
     else:
+        if sideA == "torispherical" and sideA_f is not None and sideA_k is not None:
+            sideA_a = a_torispherical(D, sideA_f, sideA_k)
+        if sideB == "torispherical" and sideB_f is not None and sideB_k is not None:
+            sideB_a = a_torispherical(D, sideB_f, sideB_k)
         max_h = L + sideA_a + sideB_a
         if h > max_h:
             h = max_h
-- 
2.43.0


From 8ef6d3b629269b1783194fea3bfa20a1d9591e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 07/12] fix: SA_partial_horiz_spherical_head of a hemisphere
 was not limited to levels inside the tank

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index b664c43..33fc776 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1989,12 +1989,12 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
     R = 0.5*D
-    if a == R:
-        return pi*R*h
-    elif h < 0.0:
+    if h < 0.0:
         return 0.0
     elif h > D:
         h = D
+    if a == R:
+        return pi*R*h
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
-- 
2.43.0


From 9078fe0cd0b9ad810384b1aa4f936c4f8ea3b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 08/12] fix: TANK.add_thickness gave flat ends a head depth, so
 levels in a vertical tank were wrong

---
 fluids/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 33fc776..5677112 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3659,12 +3659,16 @@ class TANK:
         # parameters which are already functions of diameter, and so will be
         # fixed automatically; if the `a` parameters are specified they would
         # not be corrected
-        if self.sideA != "torispherical":
+        if self.sideA is None:
+            pass # flat end; the shell thickness is part of the length
+        elif self.sideA != "torispherical":
             kwargs["sideA_a"] += sideA_thickness
         else:
             del kwargs["sideA_a"]
 
-        if self.sideB != "torispherical":
+        if self.sideB is None:
+            pass # flat end; the shell thickness is part of the length
+        elif self.sideB != "torispherical":
             kwargs["sideB_a"] += sideB_thickness
         else:
             del kwargs["sideB_a"]
-- 
2.43.0


From bd235ebf6d4cbab4f05c507052920e13fa6ddd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 09/12] fix: AirCooledExchanger refused pitch_ratio without
 pitch

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 5677112..7a4e53b 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4963,7 +4963,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From ce9044180b375cfa2feca79af40035a0f43122cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 10/12] fix: circle_segment_h_from_A returned the radius for
 every segment larger than half the circle

---
 fluids/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 7a4e53b..4885c36 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1878,6 +1878,13 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
+    A_circle = pi*R*R
+    if A > 0.5*A_circle:
+        # More than half full - the rest of the circle is a segment as well
+        A_rest = A_circle - A
+        if A_rest < 1e-12*A_circle:
+            return D
+        return D - circle_segment_h_from_A(A_rest, D)
     return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
                   args=(R, A), xtol=1e-12, bisection=True)
 
-- 
2.43.0


From f0129e944098d6c010016656da0f0bdf6329edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:28 +0000
Subject: [PATCH 11/12] fix: HelicalCoil rejects colliding turns when given
 turns and pitch

---
 fluids/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 4885c36..4ac2667 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4072,6 +4072,8 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
             N_final: float = N
             pitch_final: float = pitch
             H_final: float = N*pitch
+            if pitch_final < self.Dt:
+                raise ValueError("Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.")
         elif N is not None and H is not None:
             N_final = N
             H_final = H
-- 
2.43.0


From 0385b6f60dcf843a711400a17d909e9d6d9b2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:50 +0000
Subject: [PATCH 12/12] fix: ridder convergence tolerance at negative roots

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..b2af517 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2707,7 +2707,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         else:
             a = xn
             fa = fn
-        tol = xtol + rtol*xn
+        tol = xtol + rtol*fabs(xn)
         if (fn == 0.0 or fabs(b - a) < tol):
             return xn
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations") # numba: delete
-- 
2.43.0

