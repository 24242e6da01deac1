From 0ff771080f94c4312b6d13c4d49d5727999ca99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 01/38] fix: is_point_below_line accepts horizontal lines given
 as float, as documented

---
 simcats/support_functions/_linear_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..1b59606 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -23,8 +23,8 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     """
     x, y = point
 
-    # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    # If the straight line is specified as a single number, it is a horizontal line
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
@@ -34,7 +34,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
         return y < y_line
     else:
         raise ValueError(
-            "The straight line must be specified either as a tuple (m, b) or as a single integer for a horizontal line.")
+            "The straight line must be specified either as a tuple (m, b) or as a single number for a horizontal line.")
 
 
 def line_line_intersection(line1: Union[Sequence, np.ndarray, numbers.Real],
-- 
2.43.0


From 6aacf76cb101e969dd16d1e2b2519f21fdc0619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 02/38] fix: measure accepts unset sensor voltages when sensor
 voltage limits are configured

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9bcddd9 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From e38b928c974b5c6e35c4092c99b49658cbe1e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 03/38] fix: measure_sensor_scan supports 1D resolutions as int
 and as array with and without ideal CSD

---
 simcats/_simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9bcddd9..7d32ff3 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -465,6 +465,10 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # a single resolution (1D scan) can be supplied as int or as array with one entry
+        if not type(resolution) == int and len(resolution) == 1:
+            resolution = int(resolution[0])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
             if type(resolution) == int:
                 occupations = np.zeros((resolution, 2))
@@ -480,9 +484,6 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
             if type(resolution) == int:
                 occupations = np.ones((resolution, 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-- 
2.43.0


From 82b18a3dea1c6c339cae331361c4b6802823e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 04/38] fix: pass the gate 2 sweep range to the response
 distortions of sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 7d32ff3..e42ed2a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -543,7 +543,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From adac079ce1c18778de815e118ec4fe154fdca0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 05/38] fix: voltage limit setters handle lists as announced by
 their type check

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index e42ed2a..389bf7a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -587,7 +587,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -616,7 +616,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -646,7 +646,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -676,7 +676,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From 4132dda35bac379aeb34a9d67264a900473ee9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 06/38] fix: measure uses the arrays returned by occupation
 distortions

---
 simcats/_simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 389bf7a..53c2879 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -251,7 +251,9 @@ class Simulation:
         # add distortions to the occupations
         if self.__occupation_distortions is not None:
             for i in self.__occupation_distortions:
-                i.noise_function(occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd)
+                occupations, lead_transitions = i.noise_function(
+                    occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd
+                )
 
                 def generate_csd_with_noise(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
                     """
@@ -259,9 +261,8 @@ class Simulation:
                     next distortions.
                     """
                     occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
-                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
-                                   freeze=True)
-                    return occupations, lead_transitions
+                    return noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
+                                          freeze=True)
 
                 generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                        noise_function=i.noise_function)
-- 
2.43.0


From 3ee16030f9f51ddcd170effdc7ce96b32a809b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 07/38] fix: SensorRiseGLF shifts its fully conductive point to
 the requested potential for any mu0

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From f8fb931f640e9f466ebd5e237a655cff0e4ecd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 08/38] fix: 1D scans no longer report an empty double dot
 above the last charge transition

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..27afc59 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -186,6 +186,8 @@ def get_electron_occupation(
     elif csd.ndim == 1:
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
+        # pixels which are not below any of the TCTs belong to the region above the last TCT
+        csd_mask[:] = max(tct_functions)
         # iterate TCTs
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
-- 
2.43.0


From e9a1aff2069efc9dd3b249d0bec249578cdc58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 09/38] fix: lead transition mask no longer writes outside the
 image (or on its far side) for points on the border

---
 simcats/ideal_csd/geometric/_generate_lead_transition_mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c929d1c..560229e 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -131,6 +131,7 @@ def generate_lead_transition_mask_2d(
         # (round up if next higher value in range of 0.5 * step_size)
         x_id = np.floor_divide(wf_points_rot[:, 0] + 0.5 * x_step - x_lims[0], x_step).astype(int)
         y_id = np.floor_divide(wf_points_rot[:, 1] + 0.5 * y_step - y_lims[0], y_step).astype(int)
-        csd_result[y_id, x_id] = tct_value
+        # points close to the border of the csd can be assigned to a pixel outside the csd due to rounding errors
+        csd_result[np.clip(y_id, 0, y_res - 1), np.clip(x_id, 0, x_res - 1)] = tct_value
 
     return csd_result
-- 
2.43.0


From 3f942ca6d7f16911a86175b5073d7dcb6deacff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 10/38] fix: ideal CSD refuses sweep ranges without exactly two
 values with ValueError for 2D scans too

---
 simcats/ideal_csd/geometric/_ideal_csd_geometric.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_ideal_csd_geometric.py b/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
index 94eb88e..cf0357b 100644
--- a/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
+++ b/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
@@ -82,13 +82,6 @@ def ideal_csd_geometric(
     if isinstance(resolution, int):
         resolution = np.array([resolution])
 
-    # Check if one gate is kept at a fixed voltage if a 2D scan is requested. This is only possible in 1D scans.
-    if len(resolution) == 2 and (volt_limits_g1[0] == volt_limits_g1[1] or volt_limits_g2[0] == volt_limits_g2[1]):
-        raise ValueError(
-            "At least one of the voltage ranges 'volt_limits_g1' and 'volt_limits_g2' defines a fixed voltage. "
-            "This is only supported for 1D sweeps (only one resolution), but two resolutions were specified."
-        )
-
     # check if the gate voltage ranges have the correct number of entries
     if not (len(volt_limits_g1) == 2 and len(volt_limits_g2) == 2):
         raise ValueError(
-- 
2.43.0


From 2feddc5e2b918de545a8bf8730934f87ed8cf9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 11/38] fix: transition curves accept integer x values and do
 not truncate the bend for integer parameters

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..0bfb2e6 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -54,15 +54,15 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval so that the original supplied array is not modified (as float, because the values are shifted below)
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 5d418f2bb95298c10914d6b1260724c8cf0cedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 12/38] fix: transition curves stay continuous where rounding
 puts a point on the start of a period

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 0bfb2e6..883969d 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -5,8 +5,6 @@ The TCTs are used to generate the boundaries/structures for the geometrically si
 @author: f.hader
 """
 
-import math
-
 # used to check if a single x-value was passed to x_eval
 import numbers
 from typing import Union, Optional
@@ -136,8 +134,8 @@ def tct_bezier(
         # retrieve y values for given x_eval
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
-            x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # (divmod, because independently rounded quotient and remainder may disagree at the start of a period)
+            period_no, x_mod_per = np.divmod(x, period_length)
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From 83f405101e1ec7a7d98433470bfab317ddddd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 13/38] fix: exact evaluation of transition curve bends
 (lut_entries=None) for symmetric and convex bends

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 55 ++++++++++------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 883969d..094e734 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -11,7 +11,27 @@ from typing import Union, Optional
 
 import bezier
 import numpy as np
-import sympy
+
+
+def _solve_bezier(x_vals: np.ndarray, y_vals: np.ndarray, x_dist: float) -> float:
+    """Evaluates the quadratic bezier curve with the given nodes explicitly, at a given distance to its first node.
+
+    x is a quadratic polynomial of the curve parameter t and increases monotonically with t. Therefore, there is exactly
+    one matching t, which is retrieved using the numerically stable form of the quadratic formula.
+
+    Args:
+        x_vals (np.ndarray): The x-values of the three nodes of the bezier curve.
+        y_vals (np.ndarray): The y-values of the three nodes of the bezier curve.
+        x_dist (float): Distance in x-direction between the point to evaluate and the first node.
+
+    Returns:
+        float: The y-value of the bezier curve.
+    """
+    quadratic = x_vals[0] - 2 * x_vals[1] + x_vals[2]
+    linear = 2 * (x_vals[1] - x_vals[0])
+    root = np.sqrt(max(linear**2 + 4 * quadratic * x_dist, 0))
+    t = 2 * x_dist / (linear + root) if linear + root > 0 else 0
+    return (1 - t) ** 2 * y_vals[0] + 2 * t * (1 - t) * y_vals[1] + t**2 * y_vals[2]
 
 
 def tct_bezier(
@@ -86,10 +106,6 @@ def tct_bezier(
     if lut_entries:
         t = np.linspace(0, 1, lut_entries)
         bezier_lut = bezier_curve.evaluate_multi(t)
-    else:
-        xb, yb = sympy.symbols("x y")
-        bezier_implicit = bezier_curve.implicitize()
-        bezier_implicit_solved = sympy.solve(bezier_implicit, yb)
 
     # retrieve length of bezier curve & period length. Both are required to calculate the region
     # where the x-values to be evaluated are located
@@ -142,18 +158,7 @@ def tct_bezier(
                     # retrieve y-value of x-value closest to the desired x-value
                     y_res[x_id] = bezier_lut[1, np.argmin(np.abs(bezier_lut[0, :] - (x_mod_per + offset_x)))]
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = np.max(temp_y)
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = temp_y[0]
+                    y_res[x_id] = _solve_bezier(x_vals, y_vals, x_mod_per)
             elif x_mod_per < (bezier_length + right_lin_length):
                 # linear part starting at the end of the maxima/peak bezier curve
                 y_res[x_id] = y_vals[2] + (x_mod_per - bezier_length) * tct_params[3]
@@ -175,18 +180,10 @@ def tct_bezier(
                         + y_offset_inv_bezier
                     )
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: 2 * bezier_length + right_lin_length - x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = -1 * np.max(temp_y) + y_offset_inv_bezier
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = -1 * temp_y[0] + y_offset_inv_bezier
+                    y_res[x_id] = (
+                        -1 * _solve_bezier(x_vals, y_vals, 2 * bezier_length + right_lin_length - x_mod_per)
+                        + y_offset_inv_bezier
+                    )
             else:
                 # linear part ending at the beginning of the maxima/peak bezier curve
                 y_res[x_id] = (y_offset_inv_bezier - y_vals[0]) + (
-- 
2.43.0


From f637f6e06c3370b229923fdbb98ee08ee7859d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 14/38] fix: working point of barrier 1 takes the occupation of
 dot 2 into account

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From f1818f7a0d38eb6ffd2871a91afb544177c4d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 15/38] fix: working points of the barriers use the plunger
 gate voltages for CSDs as for sensor scans

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 30 ++++++-------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..a10a845 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -464,8 +464,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         sweep_only_sensor = self._volt_limits_g1[0] == self._volt_limits_g1[-1] and \
                             self._volt_limits_g2[0] == self._volt_limits_g2[-1]
-        sensor_swept = self._volt_limits_g1[0] == self._volt_limits_g1[-1] or \
-                       self._volt_limits_g2[0] == self._volt_limits_g2[-1]
 
         if apply_deformations and sweep_only_sensor:
             # Calculate sigma when deformations have to be applied
@@ -474,8 +472,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculation of the middle point for deformations
             middle_point = self._calc_point_from_barrier_potentials(
                 pot_bar1=self.barrier_functions[0].pinch_off,
-                pot_bar2=self.barrier_functions[1].pinch_off,
-                sensor_swept=sensor_swept
+                pot_bar2=self.barrier_functions[1].pinch_off
             )
 
             if sensor_potential.ndim == 1:
@@ -542,8 +539,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
                 fully_conductive_point = self._calc_point_from_barrier_potentials(
                     pot_bar1=self.barrier_functions[0].fully_conductive,
-                    pot_bar2=self.barrier_functions[1].fully_conductive,
-                    sensor_swept=sensor_swept
+                    pot_bar2=self.barrier_functions[1].fully_conductive
                 )
 
                 fully_conductive_potential = self.sensor_potential(
@@ -576,24 +572,20 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
-            pot_bar2: float,
-            sensor_swept: bool = True
+            pot_bar2: float
     ) -> Tuple[float, float]:
         """Calculate a point in voltage space from given barrier potentials.
 
-        This function calculates the corresponding point in gate voltage space for given barrier potentials, taking into
-        account voltage limits, gate influences, and occupations. The method applies potential offsets and converts
-        barrier potentials to gate voltages.
+        This function calculates the corresponding point in the voltage space of the sensor gates for given barrier
+        potentials, taking into account the double dot gate voltages, gate influences, and occupations. The method
+        applies potential offsets and converts barrier potentials to gate voltages.
 
         Args:
             pot_bar1 (float): Target potential for barrier 1.
             pot_bar2 (float): Target potential for barrier 2.
-            sensor_swept (bool): Boolean that indicates whether the sensor gates are swept and a sensor scan is
-                simulated or gates g1 and g2 are swept and a CSD is simulated. The boolean is true when a sensor scan is
-                simulated and false otherwise.
 
         Returns:
-            Tuple[float, float]: The calculated point coordinates (g1, g2) in gate voltage space.
+            Tuple[float, float]: The calculated point coordinates (sensor g1, sensor g2) in gate voltage space.
         """
 
         if self._occupations.ndim == 2:
@@ -609,12 +601,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         pot_bar1 = float(pot_bar1)
         pot_bar2 = float(pot_bar2)
 
-        if sensor_swept:
-            voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
-            gate_offset = np.dot(self.alpha_gate[1:], voltages)
-        else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
-            gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
+        voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
+        gate_offset = np.dot(self.alpha_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
         offset1 = (gate_offset[0] +
-- 
2.43.0


From d36c533813aec9a7ec64630d47746735de99bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 16/38] fix: evaluating the final rise of a scan sensor keeps
 the scan it was evaluated for

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index a10a845..e69c0f3 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -542,16 +542,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                     pot_bar2=self.barrier_functions[1].fully_conductive
                 )
 
-                fully_conductive_potential = self.sensor_potential(
-                    occupations=np.array((occ,)),
-                    volt_limits_g1=g1_voltage,
-                    volt_limits_g2=g2_voltage,
-                    volt_limits_sensor_g1=fully_conductive_point[0],
-                    volt_limits_sensor_g2=fully_conductive_point[1],
-                )
+                # calculated here, because sensor_potential would replace the voltages & occupations of the current scan
+                fully_conductive_potential = (np.dot(self.alpha_dot[0], occ) +
+                                              np.dot(self.alpha_gate[0], (g1_voltage, g2_voltage)) +
+                                              np.dot(self.alpha_sensor_gate[0], fully_conductive_point) +
+                                              self.offset_mu_sens[0])
 
                 final_rise_resp = self.final_rise.sensor_function(sensor_potential,
-                                                                  offset=fully_conductive_potential[0])
+                                                                  offset=fully_conductive_potential)
 
                 sens_resp = np.maximum(sens_resp, final_rise_resp)
 
-- 
2.43.0


From 02d4b9e5c57e817c4bc6993ca2f834e02e7a8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 17/38] fix: sensor scan labels use the voltage of gate 2 for
 the fully conductive point

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index e69c0f3..e1dfdfd 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -816,7 +816,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 8c810b9372f220a607a8fcf491bf15559960e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 18/38] fix: sensor scan labels accept integer voltages

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index e1dfdfd..9cb682a 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -804,8 +804,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From 6be53243eed208001331a4c5e98a04dbe3f53920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 19/38] fix: sensor scan labels do not depend on the listing
 order of the peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 9cb682a..0644607 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -867,10 +867,9 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
-                distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
+                distorted_pot = sensor_pot + (peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
@@ -888,7 +887,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 boundary_distances = np.abs(distorted_pot[row_indices, min_indices] - peak.mu0)
 
                 valid_mask = ~is_boundary | (boundary_distances < threshold)
-                coulomb_peak_mask[row_indices[valid_mask], min_indices[valid_mask]] = peak_id + 1
+                coulomb_peak_mask[row_indices[valid_mask], min_indices[valid_mask]] = idx + 1
 
             else:
                 # 1d scan
@@ -901,9 +900,9 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
                 if min_index in [0, conductive_mask.shape[0] - 1]:
                     if np.abs(distorted_pot[min_index] - peak.mu0) < threshold:
-                        coulomb_peak_mask[min_index] = peak_id + 1
+                        coulomb_peak_mask[min_index] = idx + 1
                 else:
-                    coulomb_peak_mask[min_index] = peak_id + 1
+                    coulomb_peak_mask[min_index] = idx + 1
 
         conductive_mask[((barrier1_pot > self.barrier_functions[0].pinch_off) & (
                 barrier2_pot > self.barrier_functions[1].pinch_off))] = 1
-- 
2.43.0


From ed5076290bd820a18547779415e714d4f508ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 20/38] fix: sensor scan labels of sensors without peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0644607..7c479ac 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -856,8 +856,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             dist_array = dist_array.reshape(sensor_pot.shape)
 
         all_peaks = copy.deepcopy(self.sensor_peak_function)
-        if isinstance(all_peaks, SensorPeakInterface):
-            all_peaks = [all_peaks]
+        if all_peaks is None:
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0


From 98b780842fca7939c67c8ddf02eee7ce5eaa4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 21/38] fix: circular deformation is continuous for negative
 radii

---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..0c04a8b 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_volt
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From 25668cf4611815255617b93c5ef80a4162202810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 22/38] fix: sensor scan labels accept sensor gates with fixed
 or no voltage, as documented

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 7c479ac..7da2e92 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -826,6 +826,12 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
 
+        # Sensor gates with a fixed or no voltage have the same voltage at every pixel
+        volt_limits_sensor_g1, volt_limits_sensor_g2 = [
+            limits if isinstance(limits, np.ndarray) else np.array([limits or 0, limits or 0])
+            for limits in (volt_limits_sensor_g1, volt_limits_sensor_g2)
+        ]
+
         # Create array with same voltages tuples with the same resolution as the sensor potential
         if potential.ndim == 3:
             x_values = np.linspace(volt_limits_sensor_g1[0], volt_limits_sensor_g1[-1], sensor_pot.shape[1])
-- 
2.43.0


From f7f0c9c10d86d5bb1574708e9aa484a8f0404c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 23/38] fix: peak deformations without a sensor return None
 instead of raising an AttributeError

---
 .../sensor/deformation/_sensor_peak_deformation_interface.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_interface.py b/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
index 6c8c930..777e72c 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
@@ -41,6 +41,8 @@ class SensorPeakDeformationInterface(ABC):
         """
         raise NotImplementedError
 
+    __sensor = None
+
     @property
     def sensor(self) -> SensorInterface:
         """
-- 
2.43.0


From a4aa5784c52d1b41bab349d6005ebb369de4ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 24/38] fix: deformed sensor scans with an axis of one pixel no
 longer divide by zero

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 7da2e92..7bb19ba 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -477,13 +477,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             if sensor_potential.ndim == 1:
                 for pixel_idx in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
-                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g1)
-                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g1)
                     sens_resp[pixel_idx] = self._peak_func(mu_sens=sensor_potential[pixel_idx], volt_g1=voltage_x,
                                                            volt_g2=voltage_y, volt_sensor_g1=voltage_x_sensor,
@@ -492,14 +492,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             elif sensor_potential.ndim == 2:
                 for y in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
                     for x in range(sensor_potential.shape[1]):
-                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                      volt_limits=self._volt_limits_g1)
-                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                             volt_limits=self._volt_limits_sensor_g1)
                         sens_resp[y, x] = self._peak_func(mu_sens=sensor_potential[y, x],
                                                           volt_g1=voltage_x,
-- 
2.43.0


From 888a00cbe882e0f7c8dcc73d79636c28210b40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 25/38] fix: deformations are defined when the sensor dot
 couples to the second sensor gate only

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 7bb19ba..2e3a8f8 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -427,13 +427,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         if self.__sensor_peak_function is None:
             return mu_sens
         else:
-            m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
+            direction = self._calc_potential_direction()
 
             resp_sum = 0
 
             dist = signed_dist_points_line(points=np.array([[volt_sensor_g1, volt_sensor_g2]]),
                                            line_points=np.array(
-                                               [middle_line_point, middle_line_point + np.array([1, m])]))[0]
+                                               [middle_line_point, middle_line_point + direction]))[0]
 
             for idx, p in enumerate(self.__sensor_peak_function):
                 old_mu0 = p.mu0
@@ -567,6 +567,18 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp
             return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)
 
+    def _calc_potential_direction(self) -> np.ndarray:
+        """Helper function to retrieve the direction (in the voltage space of the sensor gates) in which the potential of
+        the sensor dot changes.
+
+        Returns:
+            np.ndarray: Vector of shape (2,). It is not normalized.
+        """
+        if self.alpha_sensor_gate[0, 0] == 0:
+            # only sensor gate 2 affects the sensor dot, the slope would be infinite
+            return self.alpha_sensor_gate[0]
+        return np.array([1, self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]])
+
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
@@ -824,7 +836,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
         conductive_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
 
-        m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
+        direction = self._calc_potential_direction()
 
         # Sensor gates with a fixed or no voltage have the same voltage at every pixel
         volt_limits_sensor_g1, volt_limits_sensor_g2 = [
@@ -856,7 +868,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculate distances from the middle line
             dist_array = signed_dist_points_line(points=xy_array,
                                                  line_points=np.array(
-                                                     [middle_point, middle_point + np.array([1, m])]))
+                                                     [middle_point, middle_point + direction]))
 
             # Reshape dist_array to the initial shape (shape of the potential)
             dist_array = dist_array.reshape(sensor_pot.shape)
-- 
2.43.0


From bf4b9192c5ad5690924970da3e29b9858f1387b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 26/38] fix: scale random telegraph noise with the pixels per
 voltage of the matching axis

---
 simcats/distortions/_random_telegraph_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..e8606d1 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -137,7 +137,8 @@ class RandomTelegraphNoise(DistortionInterface):
             scale = self.scale
         # rescale scale according to the resolution per voltage
         if len(original.shape) == 2:
-            resolution = original.shape
+            # the first array axis is swept by g2 and the second one by g1
+            resolution = original.shape[::-1]
             if volt_limits_g1[0] == volt_limits_g1[1]:
                 scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-- 
2.43.0


From 84dcbef7cbea9aadf77951090eb7285511751ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 27/38] fix: random telegraph noise no longer fails if the
 scale is below one pixel

---
 simcats/distortions/_random_telegraph_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index e8606d1..0f21a31 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -299,8 +299,8 @@ def random_telegraph_noise(
     if scale == 0:
         return original
     size = np.prod(original.shape)
-    # length of a burst follows an geometric distribution
-    length = rng.geometric(p=1 / scale, size=size)
+    # length of a burst follows an geometric distribution (a burst covers at least one pixel)
+    length = rng.geometric(p=1 / np.maximum(scale, 1), size=size)
 
     noise = np.array([])
     bi = 0  # set binary states, 0 means no burst, 1 means burst
-- 
2.43.0


From 030dcfe59ebc0235fe5c39f576e0f6c8f952f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 28/38] fix: convert scale and lam of dot jumps with the pixels
 per voltage of the jump axis

---
 simcats/distortions/_dot_jumps.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..36dd0a0 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -183,15 +183,15 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
                 if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+            elif self.axis == 0:  # dot jumps in y direction
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From f595d28987adc6bcb358159c779af738bc236122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 29/38] fix: no dot jumps along an axis that is not swept
 (division by zero)

---
 simcats/distortions/_dot_jumps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 36dd0a0..e364e7e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -161,6 +161,12 @@ class OccupationDotJumps(OccupationDistortionInterface):
         if freeze and not self.__activated:
             return occupations, lead_transitions
 
+        # without a sweep along the axis of the dot jumps there is nothing that could be shifted
+        volt_limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+        if not freeze and volt_limits_axis[0] == volt_limits_axis[1]:
+            self.__activated = False
+            return occupations, lead_transitions
+
         # only resample activation if not frozen
         if not freeze:
             if not bool(self.rng.binomial(1, self.ratio)):
-- 
2.43.0


From 1874e388e6aae6a152c71a9875778a9b50ea36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 30/38] fix: dot jumps along g2 in 1D scans use the voltage
 range of g2

---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index e364e7e..18f4360 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -349,7 +349,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From 83a16897714deee3149412d67b68b24928fa62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 31/38] fix: dot jumps displace the structure by whole pixels
 (pixel spacing of the sweep)

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 18f4360..4055bda 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -323,7 +323,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -349,7 +349,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -471,7 +471,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupation.shape[1] - 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -487,7 +487,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupation.shape[0] - 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From ecef8bf2b9d9a3fbce0418f6fcf4643b8d488c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 32/38] fix: dot jumps in 2D scans with both sweeps descending

---
 simcats/distortions/_dot_jumps.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 4055bda..042331a 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -238,9 +238,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -251,15 +251,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+            # the sorted arrays are views of the original ones, so that these are already in the original order
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 797c6d5d4f284e97045b4e1633b3770f96275d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 33/38] fix: dot jumps in 1D scans with gates swept in opposite
 directions

---
 simcats/distortions/_dot_jumps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 042331a..4884f8e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -214,7 +214,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # a 1d scan can only be sorted by the axis of the dot jumps, the other gate is swept simultaneously
+            volt_limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            sorted_limits_g1 = np.array(volt_limits_g1)
+            sorted_limits_g2 = np.array(volt_limits_g2)
+            if volt_limits_axis[0] > volt_limits_axis[1]:
+                sorted_limits_g1 = sorted_limits_g1[::-1]
+                sorted_limits_g2 = sorted_limits_g2[::-1]
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
@@ -228,10 +234,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
         if len(occupations.shape) == 3:  # 2d scan
             if volt_limits_g2[0] > volt_limits_g2[1]:
                 sorted_occupations = occupations[::-1, :]
-- 
2.43.0


From 57a4a88b3b0f25de8f4b480955ddb023d9231ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 34/38] fix: dot jump distances of more than 255 pixels no
 longer wrap around

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 4884f8e..a32b42f 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -603,7 +603,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -737,7 +737,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From cb0e4eea8e9ce87e5a151b347406afa9d7a7d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 35/38] fix: scale transition blurring of non-square scans with
 the pixels per voltage of the swept axis

---
 simcats/distortions/_transition_blurring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..ecfe396 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -104,7 +104,7 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -220,7 +220,7 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From 3c843072fc24eeb1aeacf29c90908b5e11b074b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 36/38] fix: transition blurring of 2D scans with a fixed gate
 1 (infinite kernel width)

---
 simcats/distortions/_transition_blurring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index ecfe396..4598074 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -100,7 +100,8 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
-            if len(occupations.shape) == 3:  # 2d scan
+            # without a sweep in x-direction there are no transitions that could be blurred
+            if len(occupations.shape) == 3 and volt_limits_g1[0] != volt_limits_g1[1]:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
@@ -216,7 +217,8 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
-            if len(occupations.shape) == 3:  # 2d scan
+            # without a sweep in x-direction there are no transitions that could be blurred
+            if len(occupations.shape) == 3 and volt_limits_g1[0] != volt_limits_g1[1]:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-- 
2.43.0


From d822b6efdfb190d52d47b489f14aa0c419a7e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 37/38] fix: the quality multiplier of a sampled configuration
 also restricts its distortions

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..839546b 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,11 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(
+        quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(
+        quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From 7aa99a55dda55eab6e60d566043e7752041151d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 38/38] fix: gaps in the lead transitions of 2D scans whose
 pixels are far from square

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index 560229e..3b9f33f 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,8 +101,11 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    tct_points = np.empty(((x_res + y_res) * 4, 2))
-    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, (x_res + y_res) * 4)
+    # (at least two x-values per pixel of the finer axis, so that there are no gaps if the pixels are not square)
+    x_range = np.max(x_c_rot) - np.min(x_c_rot) + 2 * x_step
+    num_points = int(max((x_res + y_res) * 4, np.ceil(2 * x_range / min(x_step, y_step)) + 1))
+    tct_points = np.empty((num_points, 2))
+    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, num_points)
 
     # Insert the transition lines into the CSD
     # If the CSD is 2D, the required TCT points are sampled and discretized.
-- 
2.43.0

