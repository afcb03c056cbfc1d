From c938ba9cf8129d19d05f705a7ebf3dcd2eb05bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 01/30] fix: use the absolute mass flow rate in pipes when the
 flow is not reversible

---
 pygfunction/pipes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..fa162d3 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1623,6 +1623,9 @@ class SingleUTube(_BasePipe):
             equal lengths are considered.
         """
 
+        # The absolute value is used if the flow is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         if np.isscalar(m_flow_borehole):
             # Mass flow rate in each fluid circuit
@@ -2193,6 +2196,9 @@ class MultipleUTube(_BasePipe):
         """
 
         nPipes = self.nPipes
+        # The absolute value is used if the flow is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in pipes
         if self.config.lower() == 'parallel':
@@ -2473,6 +2479,9 @@ class IndependentMultipleUTube(MultipleUTube):
         """
         Format mass flow rate and heat capacity inputs.
         """
+        # The absolute value is used if the flow is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
-- 
2.43.0


From a7e586b07dcf9f1d0ba3393600b98c78b2dacfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/30] fix: keep the flow direction in step with the cached
 solution of a pipe

---
 pygfunction/pipes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index fa162d3..a6fed4d 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -572,7 +572,7 @@ class _BasePipe(object):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
             # Update input variables
-            self._format_inputs(
+            self._check_model_variables(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             m_flow_pipe = self._m_flow_pipe
             cp_pipe = self._cp_pipe
@@ -639,7 +639,7 @@ class _BasePipe(object):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
             # Update input variables
-            self._format_inputs(
+            self._check_model_variables(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
 
             # Coefficient matrices for outlet temperatures:
-- 
2.43.0


From a304a1f8762ad7dbddbceaf23a43ef5bed52b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 03/30] fix: store copies of the segment ratios with the cached
 coefficients of a pipe

---
 pygfunction/pipes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index a6fed4d..08cfe58 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -824,6 +824,9 @@ class _BasePipe(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
+        # Store a copy : the array may later be modified by the caller
+        if isinstance(segment_ratios, np.ndarray):
+            segment_ratios = segment_ratios.copy()
         self._stored_segment_ratios[method_id] = segment_ratios
 
     def _get_stored_coefficients(self, method_id):
@@ -851,6 +854,9 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
+            # Store a copy : the array may later be modified by the caller
+            if isinstance(segment_ratios, np.ndarray):
+                segment_ratios = segment_ratios.copy()
             self._segment_ratios_model_variables = segment_ratios
             check = False
 
-- 
2.43.0


From ae0a62356fd7f1e5b6a60915fbe7e8359d9a58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 04/30] fix: mix the outlets of a network with the flow rates
 of their own circuits

---
 pygfunction/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..37883ff 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1108,8 +1108,9 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            # Mass flow rates in the circuits of each of the outlets
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = m_flow_network
         return self._mix_out
 
-- 
2.43.0


From 96afa0b4fbc616ac287b13175c56e2c9df7f6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 05/30] fix: mix the outlets of a network with the flow rates
 of the current call

---
 pygfunction/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 37883ff..f0e0be1 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -848,6 +848,8 @@ class Network(object):
                 m_flow_network, cp_f, nSegments, segment_ratios=segment_ratios)
             # Coefficient matrices for network outlet temperature:
             # [T_{f,n,out}] = [a_in]*[T_{f,n,in}] + [a_b]*[T_{b}]
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             mix_out = self._coefficients_mixing(m_flow_network)
             a_in = mix_out @ b_in
             a_b = mix_out @ b_b
-- 
2.43.0


From fd898b1514ff9f43bc8bf77749dbe5965ca342d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 06/30] fix: tell the total flow rate from flow rates per
 circuit in the network cache

---
 pygfunction/networks.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index f0e0be1..982a92f 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1150,6 +1150,7 @@ class Network(object):
             self, m_flow_network, cp_f, nSegments, segment_ratios):
         nMethods = 7    # Number of class methods
         self._stored_coefficients = [() for _ in range(nMethods)]
+        self._stored_m_flow_shape = [None for _ in range(nMethods)]
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
@@ -1185,6 +1186,7 @@ class Network(object):
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
+        self._stored_m_flow_shape[method_id] = np.shape(m_flow_network)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_nSegments[method_id] = nSegments
         self._stored_segment_ratios[method_id] = segment_ratios
@@ -1198,7 +1200,8 @@ class Network(object):
 
     def _check_mixing_coefficients(self, m_flow_network, tol=1e-6):
         mixing_m_flow = self._mixing_m_flow
-        if np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol):
+        if (np.shape(m_flow_network) == np.shape(mixing_m_flow)
+            and np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol)):
             check = True
         else:
             check = False
@@ -1218,7 +1221,9 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        # A total flow rate (float) and flow rates per circuit (array) differ
+        if (np.shape(m_flow_network) == self._stored_m_flow_shape[method_id]
+            and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
-- 
2.43.0


From d7e95239b77b4578a665dc179933858c92e1471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 07/30] fix: store copies of the arguments of a network with
 its cached coefficients

---
 pygfunction/networks.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 982a92f..f1423d2 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1113,7 +1113,7 @@ class Network(object):
             # Mass flow rates in the circuits of each of the outlets
             m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
             self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = np.array(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1188,6 +1188,11 @@ class Network(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_shape[method_id] = np.shape(m_flow_network)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
+        # Store copies : lists and arrays may later be modified by the caller
+        if isinstance(nSegments, list):
+            nSegments = list(nSegments)
+        if isinstance(segment_ratios, list):
+            segment_ratios = [np.array(ratios) for ratios in segment_ratios]
         self._stored_nSegments[method_id] = nSegments
         self._stored_segment_ratios[method_id] = segment_ratios
 
@@ -1592,7 +1597,7 @@ class _EquivalentNetwork(Network):
             wBoreholes = self.wBoreholes.flatten()
             self._mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = np.array(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
-- 
2.43.0


From 3169d51920e434c31d5a5160394c1dc35cc9058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 08/30] fix: centre the default tilt origin of staggered fields
 of boreholes

---
 pygfunction/boreholes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..98a2fab 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -853,11 +853,11 @@ def staggered_rectangle_field(
         # When no origin is supplied, compute the origin to be at the center of
         # the rectangle
         if include_last_borehole:
-            x0 = (N_1 - 1) / 2 * B_1
+            x0 = (N_1 - 0.5) / 2 * B_1
             y0 = (N_2 - 1) / 2 * B_2
         else:
-            x0 = (N_1 - 0.5) / 2 * B_1
-            y0 = (N_2 - 0.5) / 2 * B_2
+            x0 = (N_1 - 1) / 2 * B_1
+            y0 = (N_2 - 1) / 2 * B_2
     else:
         x0, y0 = origin
 
-- 
2.43.0


From 5fc69d9d969282b393886ff23a24c25cc14be5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 09/30] fix: read the indices of duplicate boreholes as scalars

---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 98a2fab..05132b5 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From 8b023bd9d519aa3969f30f45d9fedc839cf78f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:20 +0000
Subject: [PATCH 10/30] fix: image source of inclined boreholes at its own
 distance

The transient response with both sources replaced the horizontal distance
to the image source by the borehole radius for boreholes at the same
position, unlike the response with only the image source and the
steady-state response, which it exceeded at large times.
---
 pygfunction/heat_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..2af6fc3 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1229,7 +1229,7 @@ def _finite_line_source_inclined_integrand(
             ((H1 / s * (
                 np.exp(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2)) \
                     * (erf((u *  H1 * kRea_0 + kRea_2) * s) - erf((u * H1 * kRea_0 + kRea_2 - H2) * s))
-                - np.exp(-(rr + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
+                - np.exp(-(dx**2 + dy**2 + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
                     * (erf((u *  H1 * kImg_0 + kImg_2) * s) - erf((u * H1 * kImg_0 + kImg_2 - H2) * s)))).T @ w).T
     elif reaSource:
         # Real FLS solution
-- 
2.43.0


From 4d442a307b3d54cf2d74629a4dd2cb0b838022a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 11/30] fix: linearize g-functions for several mass flow rates

The values at the threshold were multiplied by the times with the wrong
axes: more than one mass flow rate raised an exception, or mixed the
g-functions of different mass flow rates, for times below the threshold.
---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..250bb3c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From 96cbb891f28a0bad21082e33f7d26fb9f3b4cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 12/30] fix: solver 'similarities' treated a single inclined
 borehole as vertical

is_vertical is a method: it was not called.
---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From 78b8de290ef25309551995ff36aa02f3ff65135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 13/30] fix: index of the response factors of inclined
 boreholes

The factors of a group of pairs are as many as its different pairs of
segments, not as all pairs of segments: factors of the groups that
follow were taken from the wrong place (or beyond the end) when segments
of a pair of boreholes have the same factors, e.g. for horizontal
boreholes.
---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..ed01634 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += len(H1_i)
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += len(H1_i)
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From 5066364ebc1063fb9bef5eb63f2df7dbc7346433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 14/30] fix: pairs of inclined boreholes that lean on different
 sides

Pairs were similar if both boreholes make the same angles with the line
that joins them. Two boreholes that lean to the same side of that line
were confused with two boreholes that lean to opposite sides.
---
 pygfunction/solvers/similarities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index ed01634..b846b5a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -814,7 +814,13 @@ class Similarities(_BaseSolver):
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
             and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
-        if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
+        # Equality of the angle between boreholes (the directions relative to
+        # the line that joins them do not tell on which side they lean)
+        sin_b1_b2_cos_12_1 = np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * np.cos(pair1[0].orientation - pair1[1].orientation)
+        sin_b1_b2_cos_12_2 = np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * np.cos(pair2[0].orientation - pair2[1].orientation)
+        cond_angle = (
+            abs(sin_b1_b2_cos_12_1 - sin_b1_b2_cos_12_2) / (abs(sin_b1_b2_cos_12_1) + 1e-30) < self.tol)
+        if cond_H and cond_D and cond_dis and cond_beta and cond_theta and cond_angle:
             similarity = True
         else:
             similarity = False
-- 
2.43.0


From 6a4ee82fe59c0f8a00f6183757713b89dae189c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 15/30] fix: mass flow rates per borehole with solver
 'equivalent'

The verification of the flow rates used an attribute that does not exist
yet (and compared flow rates of different cases rather than those of
different boreholes), and the equivalent network expects the total flow
rate: gFunction raised an exception when m_flow_borehole was given.
---
 pygfunction/solvers/equivalent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..dcdd6c8 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -828,11 +828,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.allclose(self.m_flow_borehole, self.m_flow_borehole[:, 0:1])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
             # Use the total network mass flow rate.
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             if (type(self.network.m_flow_network) is np.ndarray and \
                 len(self.network.m_flow_network)==len(self.network.b)):
                 self.network.m_flow_network = \
-- 
2.43.0


From 1ab6d2746f7f94afd1c300a5cfdee4b2fc7f3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 16/30] fix: temperature profiles of uniform borehole wall
 temperatures

np.asscalar was removed from numpy: the profiles raised an exception.
---
 pygfunction/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..2036d92 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1337,10 +1337,10 @@ class gFunction(object):
                 if time is None:
                     # If time is None, temperatures are extracted at the last
                     # time step.
-                    T_bi = np.asscalar(self.solver.T_b[-1])
+                    T_bi = float(self.solver.T_b[-1])
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = np.asscalar(
+                    T_bi = float(
                         interp1d(self.time,
                                  self.solver.T_b[:],
                                  kind='linear',
-- 
2.43.0


From 27d959a8d9c4aa56ec979e69d3aba599d0619e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 17/30] fix: profiles at a given time for several mass flow
 rates

The profiles were taken along the axis of mass flow rates rather than the
one of segments.
---
 pygfunction/gfunction.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 2036d92..68f2edf 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1234,7 +1234,7 @@ class gFunction(object):
                     else:
                         Q_bi = interp1d(
                             self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            self.solver.Q_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
@@ -1358,11 +1358,6 @@ class gFunction(object):
                         T_bi = self.solver.T_b[:, i0:i1, -1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[i0:i1, :],
-                                    kind='linear',
-                                    copy=False,
-                                    axis=1)(time)
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
                             self.time,
@@ -1373,7 +1368,7 @@ class gFunction(object):
                     else:
                         T_bi = interp1d(
                             self.time,
-                            self.solver.T_b[i0:i1,:],
+                            self.solver.T_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
-- 
2.43.0


From 29cc5ea0407271d1ea48c1deaf4052b491164b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 18/30] fix: groups of the solver 'equivalent' follow the order
 of the boreholes

---
 pygfunction/solvers/equivalent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index dcdd6c8..60ea764 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -350,7 +350,7 @@ class Equivalent(_BaseSolver):
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
             # Initialize empty list of clusters
-            self.clusters = []
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for i, label in zip(group, clusters):
+                        self.clusters[i] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 6fd49851ba4077f0dc4aa576d06f280eec83b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 19/30] fix: unequal mass flow rates per borehole with solver
 'equivalent'

gFunction compared the flow rates of different cases rather than those of
different boreholes: a two-dimensional array of unequal flow rates raised an
AssertionError instead of the announced switch to solver 'similarities'.
---
 pygfunction/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 68f2edf..52c80f4 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1439,7 +1439,7 @@ class gFunction(object):
             elif not (self.m_flow_borehole is None
                       or np.allclose(
                           self.m_flow_borehole,
-                          self.m_flow_borehole[0])):
+                          self.m_flow_borehole[..., 0:1])):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for equal mass flow "
                     "rates into the boreholes. Calculations will use the "
-- 
2.43.0


From 936bd2e62d117141f9ce7dc20542bcbe4a16c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 20/30] fix: thermal_resistances remembers arrays that others
 may modify

The stored inputs and results were the arrays of the caller: modifying the
positions, radii or resistances in place, or the returned matrices, made later
calls return values of other inputs.
---
 pygfunction/pipes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 08cfe58..8f6888c 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2932,7 +2932,8 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
     if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+        return (_thermal_resistances_dict['R'].copy(),
+                _thermal_resistances_dict['Rd'].copy())
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2976,15 +2977,15 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
     Rd = 1.0/K
 
     # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
+    _thermal_resistances_dict['pos'] = [tuple(p) for p in pos]
+    _thermal_resistances_dict['r_out'] = np.array(r_out)
     _thermal_resistances_dict['r_b'] = r_b
     _thermal_resistances_dict['k_s'] = k_s
     _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
+    _thermal_resistances_dict['R_fp'] = np.array(R_fp)
     _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    _thermal_resistances_dict['R'] = R.copy()
+    _thermal_resistances_dict['Rd'] = Rd.copy()
     return R, Rd
 
 
-- 
2.43.0


From 7c35f6e4cdc94225c066bfee0a0aac3e9a1afcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:47 +0000
Subject: [PATCH 21/30] fix: Coaxial accepts pipes of invalid geometry or
 resistances

np.all was applied to the values and compared to zero afterwards, and the
outer pipe was allowed outside of the borehole when the inner pipe was inside.
---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 8f6888c..099243a 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2742,18 +2742,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(np.greater_equal(self.R_ff, 0.)):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(np.greater(self.R_fp, 0.)):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(np.greater(self.r_in, 0.)):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2782,7 +2782,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From b4ee307f2f29fd8fd735210c9c557fab835195ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 22/30] fix: gFunction.from_static_params evaluates cp_f at
 fluid_temperature

The heat capacity was that of the fluid at 20 degC whatever the temperature.
---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 52c80f4..d4a26ea 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -425,7 +425,8 @@ class gFunction(object):
 
         if boundary_condition.upper() == 'MIFT':
             boreholes = borefield.to_boreholes()
-            cp_f = Fluid(fluid_str, fluid_concentration_pct).cp
+            cp_f = Fluid(
+                fluid_str, fluid_concentration_pct, fluid_temperature).cp
             boreholes_or_network= Network.from_static_params(
                 boreholes,
                 pipe_type_str,
-- 
2.43.0


From aab666390f36595043b76721757482eb6654a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 23/30] fix: gFunction.from_static_params accepts boundary
 conditions in lower case

They passed its own verification, and failed that of gFunction.
---
 pygfunction/gfunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index d4a26ea..0fd6c83 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -419,6 +419,7 @@ class gFunction(object):
 
         if boundary_condition.upper() not in ['UBWT', 'UHTR', 'MIFT']:
             raise ValueError(f"'{boundary_condition}' is not a valid boundary condition.")
+        boundary_condition = boundary_condition.upper()
 
         # construct all required pieces
         borefield = Borefield(H, D, r_b, x, y, tilt, orientation)
-- 
2.43.0


From 3fef1217fc19b6c67fbe27be87d7246b077faad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 24/30] fix: gFunction uses flow rates of networks that are not
 python floats

A mass flow rate or heat capacity of the network that is an integer or a
numpy float was ignored, and the calculation refused.
---
 pygfunction/gfunction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0fd6c83..41a339a 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1416,11 +1416,15 @@ class gFunction(object):
             # Extract mass flow rate from Network object if provided in the object
             # and none of m_flow_borehole and m_flow_network are provided
             if self.m_flow_borehole is None and self.m_flow_network is None:
-                if type(self.network.m_flow_network) is float:
+                if isinstance(
+                        self.network.m_flow_network,
+                        (np.floating, np.integer, float, int)):
                      self.m_flow_network = self.network.m_flow_network
                 elif type(self.network.m_flow_network) is np.ndarray:
                      self.m_flow_borehole = self.network.m_flow_network
-            if self.cp_f is None and type(self.network.cp_f) is float:
+            if self.cp_f is None and isinstance(
+                    self.network.cp_f,
+                    (np.floating, np.integer, float, int)):
                 self.cp_f = self.network.cp_f
         else:
             self.network = None
-- 
2.43.0


From 7b4e8e58c33aed04d8d02d41037b8b1c6c93bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 25/30] fix: mixed_inlet_temperature uses m_flow_network and
 cp_f

The arguments were ignored in favor of those of the network, if any.
---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 41a339a..867d0bc 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1933,6 +1933,7 @@ def mixed_inlet_temperature(
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition,
+        m_flow_network=m_flow_network, cp_f=cp_f, options=options)
 
     return gFunc.gFunc
-- 
2.43.0


From 2703e6f51c66d67ce2a1df23ee7ac7295b76824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 26/30] fix: integer mass flow rates of networks raise
 TypeError

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 250bb3c..78a8258 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -161,7 +161,7 @@ class _BaseSolver:
             self.m_flow = self.m_flow_borehole
         self.m_flow_network = m_flow_network
         if self.m_flow_network is not None:
-            if not isinstance(self.m_flow_network, (np.floating, float)):
+            if np.ndim(self.m_flow_network) > 0:
                 self.nMassFlow = len(self.m_flow_network)
             self.m_flow_network = np.atleast_1d(self.m_flow_network)
             self.m_flow = self.m_flow_network
-- 
2.43.0


From 6f4fd294f2a9efc207df8a1ba7ad2865f6d6bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:17 +0000
Subject: [PATCH 27/30] fix: refuse lists of numbers of segments of another
 length than the field

The check of the length of nSegments compared the list with itself: with
too short a list, the last boreholes were silently left out of the field.
---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 78a8258..65c0089 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -604,7 +604,7 @@ class _BaseSolver:
             "Time should be a float or an array."
         # self.nSegments can now be an int or list
         assert type(self.nBoreSegments) is list and len(self.nBoreSegments) == \
-               len(self.nBoreSegments) and min(self.nBoreSegments) >= 1, \
+               len(self.boreholes) and min(self.nBoreSegments) >= 1, \
             "The argument for number of segments `nSegments` should be " \
             "of type int or a list of integers. If passed as a list, the " \
             "length of the list should be equal to the number of boreholes" \
-- 
2.43.0


From 8ed9fc8be6edcf989fe8025d55d328b7c9061af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:17 +0000
Subject: [PATCH 28/30] fix: refuse lists of segment ratios of another length
 than the field

With too short a list, the last boreholes were silently left out of the
field, or the calculation failed with an IndexError.
---
 pygfunction/solvers/_base_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 65c0089..081c5be 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -632,6 +632,10 @@ class _BaseSolver:
             f"Data type '{self.dtype}' is not an acceptable data type. \n" \
             f"Please provide one of the following inputs : {acceptable_dtypes}"
         # Check segment ratios
+        assert len(self.segment_ratios) == len(self.boreholes), \
+            "The argument for segment ratios `segment_ratios` should be an " \
+            "array or a list of arrays. If passed as a list, the length of " \
+            "the list should be equal to the number of boreholes."
         for j, (ratios, nSegments) in enumerate(
                 zip(self.segment_ratios, self.nBoreSegments)):
             assert len(ratios) == nSegments, \
-- 
2.43.0


From b3fa546ae276f1b54cd27e5eb2a4e4b9bb1c212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:57 +0000
Subject: [PATCH 29/30] fix: profiles of temperatures of all boreholes raise
 IndexError with the 'equivalent' method

---
 pygfunction/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 867d0bc..b9a5aed 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1023,7 +1023,7 @@ class gFunction(object):
 
         # If iBoreholes is None, then plot all boreholes
         if iBoreholes is None:
-            iBoreholes = range(len(self.boreholes))
+            iBoreholes = range(len(self.solver.boreholes))
         # Import temperature profiles
         z, T_b = self._temperature_profiles(time, iBoreholes)
 
-- 
2.43.0


From fc80d25bf509dcc34f707554b6ef64b5b7b6ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:57 +0000
Subject: [PATCH 30/30] fix: label of the annulus of coaxial pipes with the
 inlet in the annulus is drawn outside of it

---
 pygfunction/pipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 099243a..386f260 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2704,7 +2704,7 @@ class Coaxial(SingleUTube):
             if self._iInner == 0:
                 ax.text(x_in, y_in, i, ha="center", va="center")
             else:
-                ax.text(x_in + 0.5 * (self.r_out[0] + self.r_in[1]), y_in, i,
+                ax.text(x_in + 0.5 * (self.r_out[1] + self.r_in[0]), y_in, i,
                         ha="center", va="center")
 
             # Pipe outline (outlet)
-- 
2.43.0

