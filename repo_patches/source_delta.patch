From 073b201a16228afbbb73ae2360472c83f4275f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 01/36] fix: an excess temperature of exactly zero is feasible
 in the search

---
 ghedt/search_routines.py | 2 +-
 ghedt/utilities.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..c66363a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -147,7 +147,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..b318a1e 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -98,9 +98,9 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1 (0 counts as -1, an excess of 0 is acceptable)
     """
-    return int(abs(x) / x)
+    return 1 if x > 0. else -1
 
 
 def check_bracket(sign_xL, sign_xR, disp=None) -> bool:
-- 
2.43.0


From aaa07c7a7048037ca37fdf3362b13a3604c8f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 02/36] fix: solve_root divided by zero when a bound is the
 root

---
 ghedt/peak_load_analysis_tool/equivalance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..7b0cc76 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -38,6 +38,11 @@ def solve_root(x, objective_function, lower=None, upper=None,
     # bracketed
     minus = objective_function(lower)
     plus = objective_function(upper)
+    # One of the bounds may be the root itself
+    if minus == 0.:
+        return lower
+    if plus == 0.:
+        return upper
     # get signs of upper and lower thermal conductivity bounds
     kg_minus_sign = int(minus / abs(minus))
     kg_plus_sign = int(plus / abs(plus))
-- 
2.43.0


From 1be4019d3f92f41b25b44a9488f94ae8b732b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 03/36] fix: sizing ignored the solved height and saturated at
 the wrong limit

---
 ghedt/ground_heat_exchangers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..c44825f 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -328,16 +328,20 @@ class GHE(BaseGHE):
             self.bhe.b.H = H
             max_HP_EFT, min_HP_EFT = self.simulate(method=method)
             T_excess = self.cost(max_HP_EFT, min_HP_EFT)
-            return T_excess
+            # The excess decreases with height, but solve_root expects an
+            # increasing function where the bounds do not bracket the root
+            return -T_excess
 
         # Make the initial guess variable the average of the heights given
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
+        H = plat.equivalance.solve_root(
             self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
             upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
             maxiter=50)
+        # Leave the height and the temperatures of the solution in place
+        local_objective(H)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From 6982af091ad2b2b7884a305a07328d3092bd1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 04/36] fix: the first field of a zoned domain was never
 transposed

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..4f6058b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
-- 
2.43.0


From dde80cd79f2d19d4018cda70dfe467e606e38cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 05/36] fix: bi-zoned fields left the land when it is longer in
 y

---
 ghedt/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 4f6058b..2300ce0 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -290,8 +290,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From 678d2286ced4bd97510a36ba57aaaf3b0afa4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 06/36] fix: rounding error added a row to nested bi-rectangle
 fields

---
 ghedt/domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2300ce0..e7f0c71 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -120,7 +120,8 @@ def bi_rectangular(
     N_max = int(np.floor(n_1_max).tolist())
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+        # Keep round-off in the division from adding another row
+        n_2 = int(np.ceil(np.round((length_2 / B_max_2) + 1, 10)))
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
-- 
2.43.0


From d4b8b897bbc397fbe0146cdc809a2b53289c747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 07/36] fix: reordering a domain duplicated fields of equal
 size

---
 ghedt/domains.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index e7f0c71..afc1711 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -408,21 +408,7 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From 5304f0147a2aa6807f4da2293aca5c8103c5466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 08/36] fix: U_shape left out its second column

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From bedcc971b2244c098aad90c33596e9d1cc1fb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 09/36] fix: rounding error changed the number of boreholes
 along a side

---
 ghedt/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index b318a1e..b67fdb2 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -77,7 +77,8 @@ def make_rectangle_perimeter(length_x, length_y, origin=(0, 0)):
 
 
 def number_of_boreholes(length, B, func=np.ceil):
-    N = func(length / B) + 1
+    # Keep round-off in the division from changing the count
+    N = func(np.round(length / B, 10)) + 1
     return int(N)
 
 
-- 
2.43.0


From 4ebc4ba80df3b4abbd6f663b6eaba58828428f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 10/36] fix: removing a cutout without a boundary failed

---
 ghedt/feature_recognition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..67720a7 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -37,7 +37,10 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     boundary_points_idx = []
     for i in range(len(coordinates)):
         coordinate = coordinates[i]
-        dist = cv2.pointPolygonTest(_boundary, coordinate, False)
+        if len(boundary) == 0:
+            dist = -1.  # nothing is inside of an empty boundary
+        else:
+            dist = cv2.pointPolygonTest(_boundary, coordinate, False)
         if dist > 0.0:
             inside_points_idx.append(i)
         elif dist < 0.0:
-- 
2.43.0


From 7933179600de6fcb28cf52f216e5aba5751a7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 11/36] fix: polygonal domains could contain fields without
 boreholes

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index afc1711..7bca705 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -379,6 +379,8 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
-- 
2.43.0


From 49e1cc3ebb98c6cbf170051aa07767b8600442d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 12/36] fix: boreholes on a boundary were lost to truncation of
 the outline

---
 ghedt/feature_recognition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 67720a7..d31ad18 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -25,7 +25,8 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     coordinates = scale_coordinates(coordinates, scale)
     boundary = scale_coordinates(boundary, scale)
 
-    _boundary = np.array(boundary, dtype=np.uint64)
+    # truncation would move the boundary off the points that are on it
+    _boundary = np.array(np.round(boundary), dtype=np.int32)
 
     # https://stackoverflow.com/a/50670359/11637415
     # Positive - point is inside the contour
@@ -36,7 +37,7 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     outside_points_idx = []
     boundary_points_idx = []
     for i in range(len(coordinates)):
-        coordinate = coordinates[i]
+        coordinate = tuple(float(np.round(v)) for v in coordinates[i])
         if len(boundary) == 0:
             dist = -1.  # nothing is inside of an empty boundary
         else:
-- 
2.43.0


From e64bee380dde081c14bf5caea84f424d0cb3a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 13/36] fix: a peak in the first hour of a day was put on the
 day before

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..29e2591 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,12 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), 0 without a peak
+            if self.monthly_peak[i] > 0:
+                self.monthly_peak_day[i] = month_loads.index(
+                    self.monthly_peak[i]) // hours_in_day + 1
+            else:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From 3bf8ba45fc2471c99c1ab3012875c1b1cd6c26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 14/36] fix: the energy of two peaks on the same day was left
 out of the hybrid load

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 29e2591..994a7a5 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -570,7 +570,8 @@ class HybridLoad:
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
             # calculate the average value for the month (edited)
-            if include_peak:
+            peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]
+            if include_peak and peak_day_diff != 0:
                 mduration = \
                     monthdays(mi) * 24 - cl.monthly_peak_duration[mi] - \
                     hl.monthly_peak_duration[mi]
@@ -578,7 +579,6 @@ class HybridLoad:
                 mpeak_hl = hl.peak_energy(mi)  # peak htg energy
                 mload = cl.monthly_total[mi] - hl.monthly_total[mi] - mpeak_cl + mpeak_hl
                 mrate = mload / mduration
-                peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]
             else:
                 # peak load not used this month
                 mduration = monthdays(mi) * 24
-- 
2.43.0


From 15a4ae3d5c49c6641fd9218e79fdd19e51635bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 15/36] fix: a month without a load got the peak duration of
 its neighbor

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 994a7a5..44cd196 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -284,7 +284,8 @@ class Loads:
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
 
-            if current_month_peak_cl != 0.0:
+            # a month without a load has no peak, whatever its neighbors have
+            if self.monthly_peak[i] != 0.0:
                 peak_duration, q_peak, q_nominal = \
                     self.perform_current_month_simulation(
                         current_two_day_load, current_month_peak_cl,
-- 
2.43.0


From 67f96e42384ff21f2ff942e42974e2a4a12350c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 16/36] fix: peak durations failed when the two days exceed the
 monthly peak

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 27 +++++--------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 44cd196..3facda0 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -259,27 +259,13 @@ class Loads:
             # two day cooling loads (or heat rejection) in kWh
             current_two_day_load = [0.] + self.monthly_two_day_hourly_peak[i]
 
-            # This tolerance applies to the difference between the current
-            # months peak load and the maximum of the two-day load. If the
-            # absolute value of the difference between the current months
-            # peak load and the current two-day peak load is within this
-            # tolerance, then the maximum of the two-day load is equal to the
-            # maximum of the current month. If the absolute difference is
-            # greater than the tolerance, then the two-day peak load contains
-            # a load greater than the current months peak load. The tolerance
-            # could ONLY be exceeded when the first 24 hours is located in the
-            # previous month.
-            tol = 0.1
-
             # Ensure the peak load for the two-day load profile is the same or
-            # greater than the monthly peak load. This check is done in case
-            # the previous month contains a higher load than the current month.
-            load_diff = self.monthly_peak[i] - max(current_two_day_load)
+            # greater than the monthly peak load, and not exceeded in the two
+            # days. This is done in case the neighboring month contains a
+            # higher load than the current month.
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
-                current_month_peak_cl = self.monthly_peak[i]
-            else:
-                current_month_peak_cl = max(current_two_day_load)
+            current_month_peak_cl = \
+                max(self.monthly_peak[i], max(current_two_day_load))
 
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
@@ -349,7 +335,8 @@ class Loads:
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-            peak_duration = f(dT_fluid_nm_max).tolist()
+            # round-off must not lead out of the interpolation range
+            peak_duration = f(min(dT_fluid_nm_max, max(dT_fluid_pk))).tolist()
         else:
             peak_duration = 1.0e-6
 
-- 
2.43.0


From 3267c5c652b7a593f63a19f7c15c15c08777edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 17/36] fix: the hybrid time axis ran backwards for long peaks
 near other peaks or a month end

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 3facda0..0ec82b0 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -544,16 +544,26 @@ class HybridLoad:
                     if (order[k].monthly_peak[mi] > 0 and include_peak):
                         _first_hour_peak, _last_hour_peak = \
                             order[k].peak_hour_range(mi, i)
-                        self.load = np.append(self.load, rate)
-                        self.hour = np.append(self.hour, _first_hour_peak)
+                        # Shift a peak that would leave the month, or overlap
+                        # the previous peak
+                        _latest = lastmonthhour(i) - sum(
+                            o.monthly_peak_duration[mi] for o in order[k:])
+                        _first_hour_peak = max(
+                            min(_first_hour_peak, _latest), self.hour[-1])
+                        _last_hour_peak = _first_hour_peak + \
+                            order[k].monthly_peak_duration[mi]
+                        if _first_hour_peak > self.hour[-1]:
+                            self.load = np.append(self.load, rate)
+                            self.hour = np.append(self.hour, _first_hour_peak)
                         # peak
                         self.load = np.append(
                             self.load, sign[k] * order[k].monthly_peak[mi])
                         self.hour = np.append(self.hour, _last_hour_peak)
                 # rest of month
                 lastavghour = lastmonthhour(i)
-                self.load = np.append(self.load, rate)
-                self.hour = np.append(self.hour, lastavghour)
+                if lastavghour > self.hour[-1]:
+                    self.load = np.append(self.load, rate)
+                    self.hour = np.append(self.hour, lastavghour)
 
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
-- 
2.43.0


From 55a59f402ea49b73b770bed1bdbb2ffd33e0d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 18/36] fix: hourly simulation failed unless whole years are
 simulated

The number of hours was the number of months times 730, and the repeated
yearly load was not cut to it, so that a horizon which is not a multiple of
12 months raised an IndexError. Simulate the hours of the calendar months
from the start month to the end month.
---
 ghedt/ground_heat_exchangers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index c44825f..2144abe 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -300,13 +300,16 @@ class GHE(BaseGHE):
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-            n_months = \
-                self.sim_params.end_month - self.sim_params.start_month + 1
-            n_hours = int(n_months / 12. * 8760.)
+            start_month = self.sim_params.start_month
+            end_month = self.sim_params.end_month
+            # The simulation covers the hours of whole calendar months
+            first_hour = plat.ground_loads.firstmonthhour(start_month) - 1
+            last_hour = plat.ground_loads.lastmonthhour(end_month)
+            n_hours = last_hour - first_hour
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
             # How many times does q need to be repeated?
-            n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            n_years = int(np.ceil(last_hour / 8760))
+            Q_dot = (Q_dot * n_years)[first_hour:last_hour]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From 29c72e8e16cd7be4fcccb094c9f9eb33d99c01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 19/36] fix: hybrid simulation started in January whatever the
 start month

The hours of the hybrid load count from January of the first year. Without
subtracting the hours before the start month, the first load was applied
for all of them.
---
 ghedt/ground_heat_exchangers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 2144abe..46b7206 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -296,7 +296,8 @@ class GHE(BaseGHE):
 
         if method == 'hybrid':
             Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
-            time_values = self.hybrid_load.hour[2:]  # convert to seconds
+            # The simulation starts with the first hour of the start month
+            time_values = self.hybrid_load.hour[2:] - self.hybrid_load.hour[1]
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-- 
2.43.0


From 7b89655cff535001693ffa941cffc99806dc27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 20/36] fix: a lone g-function was used at any height

Without the absolute value every lower height counted as equal to the height
of the only stored curve, and every larger one was accepted by the second
condition, so that the error for a missing curve could never be raised.
---
 ghedt/gfunction.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..87b4b08 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,7 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
-                    g_function = self.g_lts[height_values[0]]
-                    rb = self.r_b_values[height_values[0]]
-                    D = self.D_values[height_values[0]]
-                    return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From 00335aaab2791386baa9387e13551449e954892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 21/36] fix: g-function interpolation depended on the first
 query

The interpolators of the first call were kept whatever kind of interpolation
or extrapolation a later call needs: a query inside the stored heights made
every later query outside of them raise a ValueError, and another kind of
interpolation was ignored. A height up to 1 mm below the range raised the same
error.
---
 ghedt/gfunction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 87b4b08..e6f6115 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -160,7 +160,7 @@ class GFunction:
         if min(height_values) <= H_eq <= max(height_values):
             fill_value = ''
         elif abs(min(height_values) - H_eq) < 0.001:
-            fill_value = ''
+            fill_value = 'extrapolate'
         else:
             fill_value = 'extrapolate'
             warnings.warn('Extrapolation is being used.')
@@ -200,8 +200,10 @@ class GFunction:
             if required_curves > len(height_values):
                 kind = curves_by_kind[len(height_values)]
 
-        # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        # if the interpolation table is not yet know, or was built for another
+        # kind of interpolation or fill value, build it
+        if self.interpolation_table.get('settings') != (kind, fill_value):
+            self.interpolation_table = {'settings': (kind, fill_value)}
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From 9c6a8ee3346a6c90bb84b362629ca064e9cba2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 22/36] fix: joining g-functions failed where a short time
 equals the first long time

An equal last short time raised an IndexError, and any other equal time was
kept twice, which leaves the interpolation undefined there.
---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 46b7206..60f2f5d 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -95,7 +95,7 @@ class BaseGHE:
             # find where to stop in sts
             i = 0
             value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while value < min_log_time_lts:
                 i += 1
                 value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
-- 
2.43.0


From bb7e70a25e2b08792581e7a4d684c60a6fda2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 23/36] fix: parallel U-tubes shared the borehole flow as if
 there were always two

The flow of each of n parallel U-tubes is the borehole flow divided by n.
---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..7fb8de5 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -10,8 +10,8 @@ class BasePipe(object):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, config, pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +78,11 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
-- 
2.43.0


From e1809f3fc8f5b3642a5a57c26bb861674c40f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 24/36] fix: updating an exchanger for a new flow kept the old
 flow per pipe

update_thermal_resistance(m_flow_borehole) computed the convection from the
flow per pipe of the construction, so that the resistances of U-tubes did not
change.
---
 .../borehole_heat_exchangers.py                        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 7fb8de5..b8c8cdd 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -9,9 +9,8 @@ class BasePipe(object):
                  config=None):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
-        # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
-            m_flow_borehole, config, pipe.n_pipes)
+        # configuration of the pipes
+        self.config = config
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -63,6 +62,9 @@ class BasePipe(object):
         return output
 
     def compute_resistances(self):
+        # mass flow rate to each pipe
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            self.m_flow_borehole, self.config, self.pipe.n_pipes)
         # Convection heat transfer coefficient of a single pipe
         self.h_f = \
             gt.pipes.convective_heat_transfer_coefficient_circular_pipe(
@@ -334,6 +336,8 @@ class CoaxialBase(object):
         return output
 
     def compute_resistances(self):
+        # mass flow rate to the pipe
+        self.m_flow_pipe = self.m_flow_borehole
         # Inner pipe thermal resistance
         self.R_p_in = gt.pipes. \
             conduction_thermal_resistance_circular_pipe(self.r_in_in,
-- 
2.43.0


From 718fda2c0d902fcc6a1aee472b5636be0dc210d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 25/36] fix: the borehole resistance for a new flow or fluid
 used the old film resistance

compute_effective_borehole_resistance(m_flow_borehole, fluid) stored the new
flow and fluid but left the resistances those determine unchanged.
---
 .../borehole_heat_exchangers.py               | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index b8c8cdd..87bd3ee 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -93,17 +93,14 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then the resistances
+        # of the pipes and the fluid change too
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(
+                m_flow_borehole=m_flow_borehole, fluid=fluid)
+
+        m_flow_borehole = self.m_flow_borehole
+        fluid = self.fluid
 
         R_b_star = self.effective_borehole_thermal_resistance(
             m_flow_borehole, fluid.cp)
-- 
2.43.0


From 0cee4e46b0cd3bf06e940e7aa5018a2b287946ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 26/36] fix: the report of a U-tube gave the Reynolds number of
 an annulus

The roughness was taken as the outer radius of an annulus, which gives a
negative number.
---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 87bd3ee..1e7cf24 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -48,7 +48,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From 03bf86d02b5b49c6056126ce5f7e1485469d4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 27/36] fix: export and report failed for boreholes with few
 short-time values

---
 ghedt/ground_heat_exchangers.py | 6 ++++--
 ghedt/search_routines.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 60f2f5d..52cbf15 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -263,8 +263,10 @@ class GHE(BaseGHE):
         total_g_values = g.x.size
         number_lts_g_values = 27
         number_sts_g_values = 50
-        sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                     number_sts_g_values).tolist())
+        # a short borehole may have fewer short time values than asked for
+        sts_step_size = max(1, int(
+            np.floor((total_g_values - number_lts_g_values) /
+                     number_sts_g_values).tolist()))
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index c66363a..b726a95 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -396,8 +396,10 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     total_g_values = g.x.size
     number_lts_g_values = 27
     number_sts_g_values = 30
-    sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                 number_sts_g_values).tolist())
+    # a short borehole may have fewer short time values than asked for
+    sts_step_size = max(1, int(
+        np.floor((total_g_values - number_lts_g_values) /
+                 number_sts_g_values).tolist()))
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0


From aff4e1f1b314bcc1199417e3d1360472ea9b12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 28/36] fix: an equivalent pipe that cannot match the
 resistance took the worst bound

---
 ghedt/peak_load_analysis_tool/equivalance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 7b0cc76..3b53796 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -104,7 +104,7 @@ def equivalent_single_u_tube(bhe, V_fluid, V_pipe, R_conv, R_pipe):
     def objective_pipe_conductivity(pipe_k):
         eq_single_u_tube.pipe.k = pipe_k
         eq_single_u_tube.update_thermal_resistance()
-        return eq_single_u_tube.R_fp - (R_conv + R_pipe)
+        return (R_conv + R_pipe) - eq_single_u_tube.R_fp
 
     # Use Brent Quadratic to find the root
     # Define a lower and upper for pipe thermal conductivities
@@ -112,8 +112,12 @@ def equivalent_single_u_tube(bhe, V_fluid, V_pipe, R_conv, R_pipe):
     k_p_upper = eq_single_u_tube.pipe.k * 10.
 
     # Solve for the mass flow rate to make the convection values equal
-    solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
-               lower=k_p_lower, upper=k_p_upper)
+    k_p = solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
+                     lower=k_p_lower, upper=k_p_upper)
+    # The last conductivity tried stays, unless the resistance is out of reach:
+    # then it is the bound that comes closest
+    if k_p in (k_p_lower, k_p_upper):
+        eq_single_u_tube.pipe.k = k_p
 
     eq_single_u_tube.update_thermal_resistance()
 
-- 
2.43.0


From 40cd203020e302ff05db8725711a5fea0450b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 29/36] fix: the nested search left the first list when the
 first field itself is selected

---
 ghedt/search_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index b726a95..878426b 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -251,8 +251,8 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (the one borehole itself is in the first list)
+        inner_domain = coordinates_domain_nested[max(selection_key - 1, 0)]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 5546860e0ccfebaaed112455afeadaa610696abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 30/36] fix: hourly loads rebuilt from monthly ones put the
 peaks on the next day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 0ec82b0..73f2bc2 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -38,6 +38,10 @@ def synthetic_load_function(
     # set the peak_load for a duration of peak_load_duration
     peak_load_start_hour = \
         math.floor(peak_day_noon - (float(peak_load_duration) / 2.))
+    # Keep a long peak on the first or the last day inside of the month
+    peak_load_start_hour = min(
+        max(peak_load_start_hour, hours_in_previous_months),
+        hours_in_previous_months + hours_in_month - peak_load_duration)
     hourly_loads[peak_load_start_hour:
                  peak_load_start_hour + peak_load_duration] = \
         [peak_load] * peak_load_duration
@@ -656,14 +660,15 @@ class HybridLoad:
                 = int(round(cl.monthly_peak_duration[i]))
             peak_day_rej: int = cl.monthly_peak_day[i]
 
+            # the first day of the month is day 0 of the synthetic loads
             synthetic_load_function(
                 hourly_extraction_loads, avg_hourly_load_ext, peak_load_ext,
-                peak_load_duration_ext, peak_day_ext, hours_in_previous_months,
-                hours_in_month)
+                peak_load_duration_ext, peak_day_ext - 1,
+                hours_in_previous_months, hours_in_month)
             synthetic_load_function(
                 hourly_rejection_loads, avg_hourly_load_rej, peak_load_rej,
-                peak_load_duration_rej, peak_day_rej, hours_in_previous_months,
-                hours_in_month)
+                peak_load_duration_rej, peak_day_rej - 1,
+                hours_in_previous_months, hours_in_month)
 
             # track the hours that have passed
             hours_in_previous_months += hours_in_month
-- 
2.43.0


From 9ad97d9af42d56d304ef5f002dbfa940f183abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 31/36] fix: average rejection of the synthetic load profile
 ignored the units

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 73f2bc2..bc5eabd 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -93,7 +93,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From 041596d69c4f6cafc0455a67464369ef2340c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 32/36] fix: two-day temperatures of months after one without a
 load were shifted

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index bc5eabd..cc9d8ac 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -283,6 +283,10 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # keep the temperatures of later months in their place
+                hours = len(current_two_day_load)
+                self.monthly_two_day_fluid_temps_pk.append([0] * hours)
+                self.monthly_two_day_fluid_temps_nm.append([0] * hours)
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From 8f5ab737fe65291382a117d72430f98649c90ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 33/36] fix: plots of hourly loads and two-day simulations
 swapped heating and cooling

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index cc9d8ac..1edff6e 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -692,12 +692,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
@@ -760,40 +760,40 @@ class HybridLoad:
         hl = self.extraction
 
         if extraction:
-            # plot two day (48 hour) fluid temperatures for cooling with peak
+            # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_pk[month_num],
+                    hl.monthly_two_day_fluid_temps_pk[month_num],
                     'k--', label='Peak Extraction', zorder=0)
-            # plot two day (48 hour) fluid temperatures for cooling with nominal
+            # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_nm[month_num],
+                    hl.monthly_two_day_fluid_temps_nm[month_num],
                     'b-', label='Extraction', zorder=1)
             # Draw horizontal line from max time to fluid sim
-            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
-                            cl.monthly_peak_duration[month_num])
-            pk_cl_duration = cl.monthly_peak_duration[month_num]
-            pk_cl_duration_rounded = round(pk_cl_duration, 1)
-            new_ticks.append(pk_cl_duration_rounded)
+            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
+                            hl.monthly_peak_duration[month_num])
+            pk_hl_duration = hl.monthly_peak_duration[month_num]
+            pk_hl_duration_rounded = round(pk_hl_duration, 1)
+            new_ticks.append(pk_hl_duration_rounded)
 
         if rejection:
-            # plot two day (48 hour) fluid temperatures for heating with peak
+            # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_pk[month_num],
+                    cl.monthly_two_day_fluid_temps_pk[month_num],
                     'k.', label='Peak Rejection', zorder=0)
-            # plot two day (48 hour) fluid temperatures for heating with nominal
+            # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_nm[month_num],
+                    cl.monthly_two_day_fluid_temps_nm[month_num],
                     'r-.', label='Rejection', zorder=1)
-            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
-                            hl.monthly_peak_duration[month_num])
-            # duration of monthly peak htg load in hours
-            pk_hl_duration = hl.monthly_peak_duration[month_num]
-            pk_hl_duration_rounded = round(pk_hl_duration, 1)
-            new_ticks.append(pk_hl_duration_rounded)
+            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
+                            cl.monthly_peak_duration[month_num])
+            # duration of monthly peak clg load in hours
+            pk_cl_duration = cl.monthly_peak_duration[month_num]
+            pk_cl_duration_rounded = round(pk_cl_duration, 1)
+            new_ticks.append(pk_cl_duration_rounded)
 
         ax.set_xticks(list(ax.get_xticks()) + new_ticks)
 
-- 
2.43.0


From e8ddc8315dc23c6a2156e94221890ab069139c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 34/36] fix: the report left out the heading of the simulation
 results

---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 52cbf15..a811034 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -236,7 +236,7 @@ class GHE(BaseGHE):
     def __repr__(self):
         output = BaseGHE.__repr__(self)
 
-        self.header('Simulation Results')
+        output += self.header('Simulation Results')
         if len(self.HPEFT) > 0:
             max_HP_EFT = max(self.HPEFT)
             min_HP_EFT = min(self.HPEFT)
-- 
2.43.0


From 4ffe3f187763ba0c0eb5dde13738ca5b153ed9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 35/36] fix: the zoned search goes on from lists drilled for
 more than 99999 m

---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 878426b..dadd2aa 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -307,7 +307,7 @@ class BisectionZD(Bisection1D):
 
         i = self.selection_key_outer
 
-        old_height = 99999
+        old_height = float('inf')
 
         while i < len(self.coordinates_domain_nested) and i < max_iter:
 
-- 
2.43.0


From 1ebbf4d1b868e4a242ac310c7471714faf887371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 36/36] fix: let the root solver take the iterations a flat
 residual needs

solve_root stopped after 50 iterations of Brent's method and raised
RuntimeError, for example for (x - 0.0402)**9 from a start of 2.
---
 ghedt/peak_load_analysis_tool/equivalance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 3b53796..bb11f34 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -21,7 +21,7 @@ def compute_equivalent(bhe):
 
 
 def solve_root(x, objective_function, lower=None, upper=None,
-               xtol=1.0e-6, rtol=1.0e-6, maxiter=50):
+               xtol=1.0e-6, rtol=1.0e-6, maxiter=1000):
     # Vary flow rate to match the convective resistance
 
     # Use Brent Quadratic to find the root
-- 
2.43.0

