From 137dbaef7ceb426d79c08ee8634f33da9235cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/18] fix: do not keep user termination events after
 IBLMethod.solve

---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..2a527c2 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,7 +556,7 @@ class IBLMethod(ABC):
             atol = atol_set
 
         # setup the ODE solver
-        kill_events = self._kill_events
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From f5b26a346c92c9305d36a9fbb3406fe1e1cbb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 02/18] fix: HeadMethod must not modify the array returned by
 the edge velocity

tau_w and the ODE right-hand side clipped the velocity in place, which
changed arrays owned by the caller and failed for scalar locations.
---
 ibl/head_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..9817401 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,7 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
+        u_e = np.array(self.u_e(x), dtype=float)
         u_e[np.abs(u_e) < 0.001] = 0.001
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
@@ -286,6 +286,7 @@ class HeadMethod(IBLMethod):
         if isinstance(u_e, float):
             u_e = max(u_e, 0.001)
         else:
+            u_e = np.array(u_e, dtype=float)
             u_e[np.abs(u_e) < 0.001] = 0.001
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
-- 
2.43.0


From abd903b7f6fe044bebde0cb5d33f97b70aacbfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 03/18] fix: clamp both ends of lambda range in Thwaites fits
 for arrays

---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..2b6515b 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From f996a43cc54a5070ed59075c6f878eacb9f55a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 04/18] fix: reject invalid callable edge velocity arguments
 before storing any

A second derivative that is not callable was accepted (the first derivative
was checked twice), and a rejected call left the new u_e paired with the
old derivatives.
---
 ibl/ibl_method.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2a527c2..b86f828 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -416,14 +416,14 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
-            self._u_e = u_e
-
             # if dU_edx not provided then use finite differences
             if du_e is None:
                 if d2u_e is not None:
                     raise ValueError("Can only pass second derivative if "
                                      + "first derivative was specified")
 
+                self._u_e = u_e
+
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
@@ -447,6 +447,11 @@ class IBLMethod(ABC):
                 if not callable(du_e):
                     raise ValueError("Must pass in callable object for first "
                                      "derivative if callable u_e given")
+                if d2u_e is not None and not callable(d2u_e):
+                    raise ValueError("Must pass in callable object for "
+                                     "second derivative if callable u_e "
+                                     "given")
+                self._u_e = u_e
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -463,11 +468,6 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-- 
2.43.0


From 658ee24afa7f68a5d73164e2d40ba0cb42db362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 05/18] fix: raise ValueError for edge velocity arguments
 without a length

For example a scalar u_e without the first derivative raised TypeError.
---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index b86f828..3322951 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -471,7 +471,7 @@ class IBLMethod(ABC):
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
+            if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
                 pchip = PchipInterpolator(x_pts, du_e_pts)
@@ -486,7 +486,7 @@ class IBLMethod(ABC):
                                  + "initialize velocity derivative")
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if len(u_e) == 2:
+            if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
                 npts = x_pts.shape[0]
-- 
2.43.0


From 7f5c6b8a45c681d45622eda27c6c5f433237924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 06/18] fix: XFoilReader remembers the name of the dump file it
 read

---
 ibl/reference/_xfoil_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..6686d60 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -180,6 +180,7 @@ class XFoilReader:
 
         # get rows from file
         airfoil_data, wake_data = self._get_dump_data(filename)
+        self._filename = filename
 
         # extract the upper airfoil data
         idx_lower = -1
-- 
2.43.0


From 0680fb35fcc6c91efaf131d109af11ec319a3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 07/18] fix: XFoilReader accepts a dump with a row at the
 stagnation point

The same point object was put in both surfaces, so its arc-length was
shifted twice and rejected as negative.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 6686d60..0d34a3a 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -201,7 +201,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From cb7850dfeef38b496ec5dd366553c2f23706746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 08/18] fix: raise ValueError when similarity solution search
 does not converge

As documented; the last iterate was silently used as the solution.
---
 ibl/analytic/_analytic_2d_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..fbf7a5e 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -627,6 +627,9 @@ class Analytic2dSimilarityIncompressible(ABC):
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
                 j = j + 1
+            if not eta_inf_converged:
+                raise ValueError("Could not find maximum similarity "
+                                 + f"coordinate, last was {eta_inf_curr:.6f}")
         else:
             eta_inf_curr = eta_inf
             fw_pp_curr = fw_pp
-- 
2.43.0


From 30c3b199da93564366ab73ba011231fa82f5f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 09/18] fix: unknown Stanford Olympics case raises ValueError
 and clears the case

It raised IndexError and kept reporting the previous case number while all
of the data had been reset.
---
 ibl/reference/_stanford_1968.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..be7ec39 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -109,15 +109,17 @@ class StanfordOlympics1968:
             When case file to be read contains invalid data.
         """
         # reset everything
+        self._case = ""
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
 
         if case == "":
-            self._case = ""
             return
 
         case_data = self._get_case_data(case_id=case)
+        if not case_data:
+            raise ValueError(f"No data for case: {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
-- 
2.43.0


From 8489df3ea776208bbeb21aa95015a7e3fe17a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 10/18] fix: FalknerSkan.reset_m raises ValueError for m <= -1

m = -1 raised ZeroDivisionError and minus infinity gave beta = nan.
---
 ibl/analytic/_falkner_skan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..22e1a4b 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -121,6 +121,8 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         ValueError
             If invalid value is passed in.
         """
+        if m <= -1:
+            raise ValueError(f"Invalid edge velocity profile parameter: {m}")
         if m == np.inf:
             beta = 2.0
         else:
-- 
2.43.0


From 479668d9805e1589af770c83c00bec4877a10375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 11/18] fix: HeadMethod keeps initial_shape_d when
 initial_delta_m is changed

---
 ibl/head_method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 9817401..de81fc1 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -48,7 +48,10 @@ class HeadMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
+        shape_d = self.initial_shape_d
         cast(ManualCondition, self._ic).del_m = delta_m0
+        if np.isfinite(shape_d):
+            self.initial_shape_d = shape_d
 
     @property
     def initial_shape_d(self) -> float:
-- 
2.43.0


From 450b93d32c81c33c28083f1a503523b121fc3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 12/18] fix: check the vectors of edge velocity tables before
 using them

---
 ibl/ibl_method.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 3322951..fb6afa7 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -474,6 +474,11 @@ class IBLMethod(ABC):
             if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
+                if (x_pts.ndim != 1 or du_e_pts.shape != x_pts.shape
+                        or x_pts.shape[0] < 2):
+                    raise ValueError("Elements of du_e 2-tuple must be 1D "
+                                     + "vectors of same length with at "
+                                     + "least two points")
                 pchip = PchipInterpolator(x_pts, du_e_pts)
                 self._du_e = pchip
                 pchipa = pchip.antiderivative()
@@ -489,7 +494,6 @@ class IBLMethod(ABC):
             if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
-                npts = x_pts.shape[0]
                 # check to make sure have two vectors of same length suitable
                 #   for building splines
                 if x_pts.ndim != 1:
@@ -498,6 +502,7 @@ class IBLMethod(ABC):
                 if u_e_pts.ndim != 1:
                     raise ValueError("Second element of u_e 2-tuple must be "
                                      + "1D vector of Velocities")
+                npts = x_pts.shape[0]
                 if npts != u_e_pts.shape[0]:
                     raise ValueError("Vectors in u_e 2-tuple must be of same "
                                      + "length")
-- 
2.43.0


From d16171eed3d3d29b1ebe2fe9278ff090ff495aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 13/18] fix: a solve that raises no longer leaves the previous
 solution in place

---
 ibl/ibl_method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index fb6afa7..aab96a3 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -547,6 +547,9 @@ class IBLMethod(ABC):
         TypeError
             When solution parameters have not been set.
         """
+        # any previous solution is no longer valid
+        self._solution = None
+
         # setup the initial conditions
         self._ic.nu = self._nu
         self._ic.du_e = float(self.du_e(x0))
@@ -573,7 +576,6 @@ class IBLMethod(ABC):
                         rtol=rtol, atol=atol)
 
         # if completed gather info
-        self._solution = None
         x_end = x0
         f_end = y0
         status = TermReason.UNKNOWN
-- 
2.43.0


From fdb27cffad0bb1e509d2bb5c460474646dd2c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 14/18] fix: report the event that stopped the integration, not
 a non-terminal one

---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index aab96a3..72b866b 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -592,7 +592,7 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
-                    if xe.shape[0] > 0:
+                    if kill_events[i].terminal and xe.shape[0] > 0:
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
                         status, message = kill_events[i].event_info()
-- 
2.43.0


From 4d13c6770243b440914b67cbc5ab0585c66fb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 15/18] fix: Thwaites separation event returns a number so that
 other events can be given

---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 2b6515b..6b09870 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -732,7 +732,7 @@ class _ThwaitesSeparationEvent(TermEvent):
         float
             Current value of the shear function.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        return float(self._shear_fun(self._calc_lam(x, f[0])))
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 20036ffbcf099c9d20381c1cc67983d9944a9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 16/18] fix: locate Thwaites separation where the shear
 function reaches zero

The White and spline fits keep a shear of exactly zero below their range, so
the event never changed sign and the end of the integrator's step was
reported as the separation location.
---
 ibl/thwaites_method.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 6b09870..84d6604 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -159,7 +159,8 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.shear,
+                                                      self._model.range()[0]))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -707,10 +708,13 @@ class _ThwaitesSeparationEvent(TermEvent):
     # ----------
     #    _calc_lam: Callable that can calculate lambda.
     #    _S_fun: Callable that can calculate the shear function.
-    def __init__(self, calc_lam: Callable, shear_fun: Callable) -> None:
+    #    _lam_min: Lower end of the range of the shear function.
+    def __init__(self, calc_lam: Callable, shear_fun: Callable,
+                 lam_min: float) -> None:
         super().__init__()
         self._calc_lam = calc_lam
         self._shear_fun = shear_fun
+        self._lam_min = lam_min
 
     @override
     def _call_impl(self, x: float, f: npt.NDArray) -> float:
@@ -732,7 +736,14 @@ class _ThwaitesSeparationEvent(TermEvent):
         float
             Current value of the shear function.
         """
-        return float(self._shear_fun(self._calc_lam(x, f[0])))
+        lam = float(self._calc_lam(x, f[0]))
+        shear = float(self._shear_fun(lam))
+
+        # the shear function is constant below its range, so if it ends at
+        # zero make it change sign there so that the location can be found
+        if shear <= 0:
+            shear += min(0.0, lam - self._lam_min)
+        return shear
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From d325a0c40f7760e8982c77b727bdd34b45334614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 17/18] fix: keep HeadMethod's initial shape factor when it is
 set before the momentum thickness

---
 ibl/head_method.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index de81fc1..c45b93e 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -33,6 +33,8 @@ class HeadMethod(IBLMethod):
         super().__init__(nu=nu, u_e=U_e, du_e=dU_edx, d2u_e=d2U_edx2,
                          ic=ManualCondition(delta_d=np.inf, delta_m=np.inf,
                                             delta_k=0))
+        # kept until there is a momentum thickness to go with it
+        self._shape_d0 = np.nan
 
         self.set_shape_d_critical(shape_d_crit)
 
@@ -59,12 +61,15 @@ class HeadMethod(IBLMethod):
         Dispacement thickness at start of integration.
         Must be greater than zero
         """
+        if np.isinf(self._ic.delta_m()):
+            return self._shape_d0
         return self._ic.shape_d()
 
     @initial_shape_d.setter
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
+        self._shape_d0 = shape_d
         cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
-- 
2.43.0


From 6cc4dac267c036bfc6df468657530e5b73ffc34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:38 +0000
Subject: [PATCH 18/18] fix: report malformed Stanford case headers as
 ValueError

Identifier or viscosity lines without '=', and case files missing one of
the leading blocks, failed with IndexError instead of the documented
ValueError.
---
 ibl/reference/_stanford_1968.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index be7ec39..556eaad 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -120,11 +120,15 @@ class StanfordOlympics1968:
         case_data = self._get_case_data(case_id=case)
         if not case_data:
             raise ValueError(f"No data for case: {case}")
+        if (len(case_data) < 3) or (len(case_data[0]) < 2):
+            raise ValueError(f"Incomplete data for case: {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
 
-        if (case_parts[0] != "IDENT") and (case_parts[0] != "ident"):
+        if ((len(case_parts) < 2)
+                or ((case_parts[0] != "IDENT")
+                    and (case_parts[0] != "ident"))):
             raise ValueError("Invalid case identifier line: "
                              + f"{case_data[0][0]}")
         if case_parts[1] != case:
@@ -134,7 +138,8 @@ class StanfordOlympics1968:
         si_unit = case[0] == "1"
 
         nu_parts = [x.rstrip().lstrip() for x in case_data[0][1].split("=")]
-        if (nu_parts[0] != "V") and (nu_parts[0] != "v"):
+        if ((len(nu_parts) < 2)
+                or ((nu_parts[0] != "V") and (nu_parts[0] != "v"))):
             raise ValueError(f"Invalid viscosity line: {case_data[0][1]}")
         if si_unit:
             self._nu_ref = float(nu_parts[1])*1e-4
-- 
2.43.0

