From 7afc3daf37bd3c74dd384c099d50d9c726a62c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 001/109] fix: do not count start_xyz twice in Survey.pos_nev

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..a6359b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
-- 
2.43.0


From 14de2c8262564b4c0e51c758f2e8343102898d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 002/109] fix: vertical section projects the displacement and
 leaves the azimuths alone

---
 welleng/survey.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6359b9..7d1af6a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1304,17 +1304,17 @@ class Survey:
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        azi_temp = getattr(
-            self,
-            f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
-        )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
+        # the section azimuth is relative to the reference azimuth, while the
+        # positions are relative to grid north.
+        azimuth_grid = vertical_section_azimuth + {
+            'grid': 0.0,
+            'true': -self.header.convergence,
+            'magnetic': self.header.declination - self.header.convergence
+        }[self.header.azi_reference]
+        result = (
+            np.diff(self.n) * np.cos(azimuth_grid)
+            + np.diff(self.e) * np.sin(azimuth_grid)
         )
-        result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
-        ) * self.hypot
 
         result = np.cumsum(np.hstack(([0.0], result)))
 
-- 
2.43.0


From 37ecef0bf64f5e76d7f1779f11f089335d559140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 003/109] fix: set_vertical_section stores the header azimuth
 in radians

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 7d1af6a..448242a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1336,7 +1336,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            vertical_section_azimuth if not deg
+            else math.radians(vertical_section_azimuth)
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From 68665d19923301ba2f346c11b91defd6650489df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 004/109] fix: Arc.transform no longer negates the caller's
 target vector in place

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..8800ef1 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -592,7 +592,7 @@ class Arc:
         if vec is None:
             vec = np.array([0., 0., 1.])
         if target:
-            vec *= -1
+            vec = -1 * np.asarray(vec)
         inc, azi = get_angles(vec, nev=True).reshape(2)
         angles = [
             toolface,
-- 
2.43.0


From c24c1b31576380191a8a08da7df4623b0f5d6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 005/109] fix: dls_from_radius gives an infinite dls for zero
 radius in arrays too

---
 welleng/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 8800ef1..8fe65b4 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -448,12 +448,11 @@ def dls_from_radius(radius):
     Returns the dls in degrees from a radius.
     """
     if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
+        # an arc of zero radius is infinitely tight, as in the scalar branch
+        with np.errstate(divide='ignore'):
+            return np.where(
+                radius != 0, 360 / (2 * np.pi * radius) * 30, np.inf
+            )
     else:
         if radius == 0:
             return np.inf
-- 
2.43.0


From 07e865ac6e13726863074dc21ead38abafb73461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 006/109] fix: interpolating a survey no longer rewrites the
 azimuth reference of its header

---
 welleng/survey.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 448242a..a85af46 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1500,8 +1500,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
-        sh.azi_reference = 'grid'
+        sh = _grid_header(self.header)
 
         # Create a new Survey instance
         survey = Survey(
@@ -1809,6 +1808,24 @@ def get_node(survey, idx, interpolated=False):
     return node
 
 
+def _grid_header(header):
+    """
+    Returns a copy of the header for a survey stated with grid azimuths, so
+    that the header of the original survey is left alone.
+    """
+    sh = copy(header)
+    if sh.vertical_section_azimuth is not None:
+        # this is relative to the azimuth reference
+        sh.vertical_section_azimuth += {
+            'grid': 0.0,
+            'true': -header.convergence,
+            'magnetic': header.declination - header.convergence
+        }[header.azi_reference]
+    sh.azi_reference = 'grid'
+
+    return sh
+
+
 def interpolate_md(survey, md):
     """
     Interpolates a survey at a given measured depth.
@@ -1892,8 +1909,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = _grid_header(survey.header)
 
     s = Survey(
         md=np.array(
-- 
2.43.0


From 9af1a3ebd0a0bea8b33f59f9b2f97e3d153ed555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 007/109] fix: adding start_cov_nev no longer modifies the
 caller's covariances

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a85af46..9bef2ec 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -970,7 +970,8 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            # don't add in place, the array may belong to the caller
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 2df84367d22eccf7133acfcd6732cf058afa1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 008/109] fix: slice_survey keeps the well's direction when the
 header reference isn't grid

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 9bef2ec..4ba3bbe 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2123,7 +2123,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         n=n,
         e=e,
         tvd=tvd,
-        header=survey.header,
+        header=_grid_header(survey.header),  # survey_rad has grid azimuths
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
-- 
2.43.0


From 0b8a3a398625ca3085a9530bbbddbed5961de218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 009/109] fix: splice surveys with a magnetic reference or in
 feet

---
 welleng/survey.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 4ba3bbe..259f476 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3107,15 +3107,19 @@ class SurveyData:
         self.header = survey.header
         self.md = survey.md
         self.inc = survey.inc_rad
-        self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-        )
+        self.azi = self._get_azi(survey)
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
         self.cov_nev = survey.cov_nev
         self.cov_hla = survey.cov_hla
         self.radius = survey.radius
 
+    def _get_azi(self, survey):
+        return getattr(
+            survey,
+            f"azi_{survey.azi_ref_lookup[self.header.azi_reference]}_rad"
+        )
+
     def append_survey(self, survey):
         """
         Method to extract data from a survey and append it to
@@ -3130,9 +3134,7 @@ class SurveyData:
         self.azi = np.hstack(
             (
                 self.azi,
-                getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-                )[1:]
+                self._get_azi(survey)[1:]
             )
         )
         self.cov_nev = np.hstack(
@@ -3168,7 +3170,8 @@ class SurveyData:
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
             radius= self.radius,
-            header=self.header
+            header=self.header,
+            unit=self.header.depth_unit
         )
         return survey
 
-- 
2.43.0


From c197b2f2dcb1a6a033be5a7aa692b63d326f8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 010/109] fix: splice surveys that have no covariances

---
 welleng/survey.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 259f476..7cfe083 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3137,18 +3137,23 @@ class SurveyData:
                 self._get_azi(survey)[1:]
             )
         )
-        self.cov_nev = np.hstack(
-            (
-                self.cov_nev.reshape(-1),
-                survey.cov_nev[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
-        self.cov_hla = np.hstack(
-            (
-                self.cov_hla.reshape(-1),
-                survey.cov_hla[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
+        if self.cov_nev is None or survey.cov_nev is None:
+            # the uncertainty of the whole well is only known when the
+            # uncertainty of all of its parts are.
+            self.cov_nev, self.cov_hla = None, None
+        else:
+            self.cov_nev = np.hstack(
+                (
+                    self.cov_nev.reshape(-1),
+                    survey.cov_nev[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
+            self.cov_hla = np.hstack(
+                (
+                    self.cov_hla.reshape(-1),
+                    survey.cov_hla[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
         self.radius = np.hstack((self.radius, survey.radius[1:]))
 
     def get_survey(self):
-- 
2.43.0


From 88f1ecaecfe159ccdd1683c8d178d12cc2947ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 011/109] fix: from_connections (and so interpolate_survey)
 takes the unit of the given header

---
 welleng/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 7cfe083..8516540 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2699,6 +2699,8 @@ def from_connections(
             surface_unit=surface_unit,
             azi_reference="grid"  # since connections are typcially derived from pos
         )
+    else:
+        depth_unit = survey_header.depth_unit
 
     interpolated = np.array([False if m in mds_ref else True for m in md])
 
-- 
2.43.0


From b3aa126642c29adc594eee14fac6c45d051281b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 012/109] fix: interpolate_survey keeps covariances that don't
 come from an error model

---
 welleng/survey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 8516540..ef31cbf 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2807,7 +2807,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
     ):
         if not boolean:
             i += 1
-            if survey.error_model is not None:
+            if survey.cov_nev is not None:
                 # interpolate covariance error between survey stations
                 j = 1 if i < len(survey.md) - 1 else 0
                 delta_md = survey.md[i + j] - survey.md[i]
@@ -2820,7 +2820,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
                     else 0
                 )
         radii.append(survey.radius[i])
-        if survey.error_model is not None:
+        if survey.cov_nev is not None:
             cov_nev.append(
                 survey.cov_nev[i]
                 + (
-- 
2.43.0


From 14239dd2c166cab0112bab908569efcaef7611ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 013/109] fix: interpolate_survey_tvd keeps the start position,
 unit and azimuths of the survey

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index ef31cbf..c738b27 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2927,13 +2927,17 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         for n in nodes
     ]).T
 
+    # the nodes are located relative to grid north
     s_interp = Survey(
         md=md,
         inc=inc,
         azi=azi,
+        start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=_grid_header(survey.header),
+        unit=survey.unit
     )
 
     return s_interp
-- 
2.43.0


From c33a6346f456d2d5a58c6c953bb256cf2ede1740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 014/109] fix: maximum_curvature of a survey in feet

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c738b27..1ece8f2 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1467,6 +1467,9 @@ class Survey:
         """
 
         dls_effective = self.dls + dls_noise
+        if self.unit == 'feet':
+            # deg/100ft, so scale to the deg/30 that's expected
+            dls_effective = dls_effective * 0.3
         radius_effective = radius_from_dls(dls_effective)
 
         dogleg1 = (
@@ -1510,7 +1513,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
-- 
2.43.0


From 78c1befee90136e847850a8fffb8ad13f49e2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 015/109] fix: project to bit and target in the unit of the
 survey

---
 welleng/survey.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 1ece8f2..772390b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1216,7 +1216,8 @@ class Survey:
             delta_md=delta_md,
             dls=dls,
             toolface=toolface,
-            md=self.md[-1]
+            md=self.md[-1],
+            unit=self.unit
         )
 
         return node
@@ -2947,7 +2948,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     return s_interp
 
 
-def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
+def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0, unit='meters'):
     """
     Apply a simple arc or hold from a current position and vector.
 
@@ -2966,11 +2967,16 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         The desired toolface for the projection.
     md: float (optional)
         The current md if applicable.
+    unit: str (optional)
+        Either 'meters' or 'feet', the dls is then in deg/30m or deg/100ft.
 
     Returns
     -------
     node: welleng.node.Node object
     """
+    if unit == 'feet':
+        # scale to the deg/30 that's expected below
+        dls = dls * 0.3
     if dls > 0:
         radius = radius_from_dls(dls)
         dogleg = np.radians(delta_md / 30 * dls)
@@ -3010,6 +3016,7 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         pos=pos_new,
         vec=vec_new,
         md=md + delta_md,
+        unit=unit,
     )
 
     return node
@@ -3051,7 +3058,8 @@ def project_to_target(
     """
     connectors = []
     node_start = Node(
-            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1]
+            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1],
+            unit=survey.unit
         )
     if dls is None:
         dls = survey.dls[-1]
@@ -3070,11 +3078,14 @@ def project_to_target(
             delta_md,
             dls,
             toolface,
-            survey.md[-1]
+            survey.md[-1],
+            unit=survey.unit
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(
+                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+            )
         )
         node_bit = connectors[-1].node_end
     else:
@@ -3082,7 +3093,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design
+            node_bit, node_target, dls_design, unit=survey.unit
         )
     )
     survey_to_target = from_connections(
-- 
2.43.0


From ea610fc444a6a0a6c028e1bb3c991239bd4ab7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 016/109] fix: project_to_target passes through the bit
 projected with the given dls

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 772390b..b6ced60 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3083,8 +3083,10 @@ def project_to_target(
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
+            # a single curve all the way to the bit, not a curve at the
+            # design dls followed by a hold
             Connector(
-                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+                node_start, node_bit, dls_design=1e-8, unit=survey.unit
             )
         )
         node_bit = connectors[-1].node_end
-- 
2.43.0


From f8ec34e33be73f501682c8fdabb5f6b426f6447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 017/109] fix: project_to_target heads for the target when the
 header reference isn't grid

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index b6ced60..568b514 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3057,6 +3057,8 @@ def project_to_target(
     node: welleng.survey.Survey obj
     """
     connectors = []
+    # the nodes are located relative to grid north
+    header = _grid_header(survey.header)
     node_start = Node(
             pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1],
             unit=survey.unit
@@ -3101,7 +3103,7 @@ def project_to_target(
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=header,
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
-- 
2.43.0


From 3891d6bd5db63f4167b43730dcb0056e058f8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 018/109] fix: export_csv checks its control points in the
 survey's unit and grid azimuths

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 568b514..98439ae 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2619,7 +2619,8 @@ def func(x0, survey, dls_cont, tolerance):
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=_grid_header(survey.header),
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
-- 
2.43.0


From 96a242a9d590af988a5b1fce05e5c36bbc03ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 019/109] fix: clearance keeps the direction of wells whose
 azimuths aren't referenced to grid

---
 welleng/clearance.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..d837304 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -14,7 +14,10 @@ from scipy.spatial import KDTree
 from scipy.spatial.distance import cdist
 
 from .mesh import WellMesh, to_trimesh
-from .survey import Survey, _interpolate_survey, _interpolate_pos_nev, slice_survey
+from .survey import (
+    Survey, _grid_header, _interpolate_survey, _interpolate_pos_nev,
+    slice_survey
+)
 from .utils import NEV_to_HLA
 
 
@@ -197,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=_grid_header(self.reference.header),
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -531,8 +534,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
-                sh.azi_reference = 'grid'
+                sh = _grid_header(self.ref.header)
 
                 survey = Survey(
                     md=np.insert(
@@ -700,7 +702,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=_grid_header(self.offset.header),
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
-- 
2.43.0


From 64bfd20f4eb4186cdc590f00412cabf3ac2ff274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 020/109] fix: minimize the separation factor of wells in feet

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index d837304..14d0636 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -558,7 +558,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
-- 
2.43.0


From 58077e23b563484e273053a31414e1e11b3770db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 021/109] fix: stations added at separation factor minima keep
 the well's uncertainty

---
 welleng/clearance.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 14d0636..9fc6044 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -533,6 +533,15 @@ class IscwsaClearance(Clearance):
                 )
 
                 node = self.ref.interpolate_md(md)
+                # a node has no covariance of its own
+                mult = (
+                    (md - self.ref.md[i - 1])
+                    / (self.ref.md[i] - self.ref.md[i - 1])
+                )
+                cov_nev = (
+                    self.ref.cov_nev[i - 1]
+                    + mult * (self.ref.cov_nev[i] - self.ref.cov_nev[i - 1])
+                )
 
                 sh = _grid_header(self.ref.header)
 
@@ -547,7 +556,7 @@ class IscwsaClearance(Clearance):
                         self.ref.azi_grid_rad, i, node.azi_rad
                     ),
                     cov_nev=np.insert(
-                        self.ref.cov_nev, i, node.cov_nev, axis=0
+                        self.ref.cov_nev, i, cov_nev, axis=0
                     ),
                     start_nev=self.ref.start_nev,
                     start_xyz=self.ref.start_xyz,
-- 
2.43.0


From e9a2e4ec8663acfd370a65da9a2e06c098a383ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 022/109] fix: TorqueDrag leaves the header of the survey alone
 and keeps its start and unit

---
 welleng/torque_drag.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..6e9698c 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     PLOTLY = False
 
-from .survey import interpolate_md, Survey
+from .survey import _grid_header, interpolate_md, Survey
 from .units import ureg
 
 
@@ -136,11 +136,13 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
-        sh.azi_reference = 'grid'
+        sh = _grid_header(self.survey_original.header)
 
         self.survey = Survey(
-            md=md, inc=inc, azi=azi, header=sh, deg=False
+            md=md, inc=inc, azi=azi, header=sh, deg=False,
+            start_nev=self.survey_original.start_nev,
+            start_xyz=self.survey_original.start_xyz,
+            unit=self.survey_original.unit
         )
 
     def get_buoyancy_factors(self):
-- 
2.43.0


From ce30fb60002e5d8dc60b1e5f0d6533f2120c42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 023/109] fix: recognise the survey stations of an interpolated
 survey

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 98439ae..01460f1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2708,7 +2708,10 @@ def from_connections(
     else:
         depth_unit = survey_header.depth_unit
 
-    interpolated = np.array([False if m in mds_ref else True for m in md])
+    # the mds are accumulated, so they're not exactly equal
+    interpolated = np.array([
+        not np.isclose(m, mds_ref, rtol=0, atol=1e-6).any() for m in md
+    ])
 
     survey = Survey(
         md=md,
@@ -2799,8 +2802,9 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         error_model=None
     )
 
+    # the mds are accumulated, so they're not exactly equal
     survey_interpolated.interpolated = [
-        False if md in survey.md else True
+        not np.isclose(md, survey.md, rtol=0, atol=1e-6).any()
         for md in survey_interpolated.md
     ]
 
-- 
2.43.0


From 8ed6351cdb6b1a86f2f425b3a337d0dcf5b29c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 024/109] fix: interpolating by tvd brackets the depth, so
 stations and small doglegs don't fail

---
 welleng/survey.py | 114 +++++++++-------------------------------------
 1 file changed, 21 insertions(+), 93 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 01460f1..a97d47e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -18,7 +18,7 @@ except ImportError:
 from datetime import datetime
 from pyproj import CRS, Proj, Transformer
 from pyproj.enums import TransformDirection
-from scipy.optimize import minimize
+from scipy.optimize import brentq, minimize
 from scipy.spatial.transform import Rotation as R
 
 from .version import __version__
@@ -1981,107 +1981,33 @@ def interpolate_tvd(survey, tvd, **kwargs):
     tvd : float
         The target true vertical depth.
     **kwargs
-        Optional ``node_origin`` to override the starting node.
+        Not used, ``node_origin`` is accepted for backwards compatibility.
 
     Returns
     -------
     Node
         A Node at the interpolated TVD position.
     """
-    # only seem to work with relative small delta_md - re-write with minimize
-    # function?
+    # find the (first) pair of stations the tvd lies between
+    delta = survey.tvd - tvd
+    delta[np.abs(delta) < 1e-9] = 0.0  # at a station
+    idx = np.where(delta[:-1] * delta[1:] <= 0)[0]
+    assert len(idx) > 0, "tvd is out of range"
+    idx = idx[0]
+    if delta[idx + 1] == 0 and idx + 1 < len(survey.tvd) - 1:
+        idx += 1
 
-    def tidy_up_angle(d):
-        """
-        Helper function to handle large angles.
-        """
-        if abs(d) > np.pi:
-            d %= (2 * np.pi)
-        return d
-
-    coeff = 1
-    # find closest point assuming tvd is sorted list
-    idx = np.searchsorted(survey.tvd, tvd, side="right") - 1
-    if idx == len(survey.tvd) - 1:
-        idx = len(survey.tvd) - 2
-    elif idx == -1:
-        idx = len(survey.tvd) - 2
-        coeff = -1
-    pos1, pos2 = np.array([survey.n, survey.e, survey.tvd]).T[idx: idx + 2]
-    vec1, vec2 = survey.vec_nev[idx: idx + 2]
-    dogleg = survey.dogleg[idx + 1]
     delta_md = survey.delta_md[idx + 1]
 
-    node_origin = kwargs.get('node_origin')
-    if node_origin:
-        pos1, vec1 = node_origin.pos_nev, node_origin.vec_nev
-        delta_md = survey.md[idx + 1] - node_origin.md
-        # TODO: need to recalculate the dogleg
-        s_temp = Survey(
-            md=[node_origin.md, survey.md[idx + 1]],
-            inc=[node_origin.inc_rad, survey.inc_rad[idx + 1]],
-            azi=[node_origin.azi_rad, survey.azi_grid_rad[idx + 1]],
-            deg=False
-        )
-        dogleg = s_temp.dogleg[-1]
-
-    if np.isnan(dogleg):
-        return _interpolate_survey(survey, x=0, index=idx)
-
-    if dogleg == 0:
-        x = (
-            (
-                tvd - survey.tvd[idx]
-            )
-            / (survey.tvd[idx + 1] - survey.tvd[idx])
-        ) * (survey.md[idx + 1] - survey.md[idx])
+    if delta[idx] == 0:
+        x = 0.0
+    elif delta[idx + 1] == 0:
+        x = delta_md
     else:
-        m = np.array([0., 0., coeff])
-        a = np.dot(m, vec1) * np.sin(dogleg)
-        b = np.dot(m, vec1) * np.cos(dogleg) - np.dot(m, vec2)
-        # p = get_unit_vec(np.array([0., 0., tvd]) - pos1)
-        p = np.array([0., 0., tvd]) - pos1
-        c = (
-            np.dot(m, p)
-            * dogleg
-            * np.sin(dogleg)
-            / delta_md
-        ) + b
-
-        d1 = 2 * np.arctan2(
-            (
-                a + (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
+        x = brentq(
+            lambda x: _interpolate_pos_nev(survey, x, idx)[2] - tvd,
+            0.0, delta_md
         )
-        d1 = tidy_up_angle(d1)
-
-        d2 = 2 * np.arctan2(
-            (
-                a - (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
-        )
-        d2 = tidy_up_angle(d2)
-
-        assert d1 >= 0 or d2 >= 0
-        if d1 < 0:
-            d = d2
-        elif d2 < 0:
-            d = d1
-        else:
-            d = min(d1, d2)
-
-        x = d / dogleg * delta_md
-
-        if node_origin:
-            x -= survey.md[idx] - node_origin.md
-
-        assert x <= delta_md
 
     interpolated_survey = _interpolate_survey(survey, x=x, index=idx)
 
@@ -2910,7 +2836,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         while 1:
             node1 = nodes[-1]
             node2 = copy(node2_master)
-            if np.isclose(node1.md, md2):
+            if np.isclose(node1.md, md2, rtol=0, atol=1e-6):
                 node1.interpolated = False
                 break
 
@@ -2932,9 +2858,11 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
                 tvds.append(tvds[-1])
                 break
 
+    # a station that's also on a step may have been added twice
     md, inc, azi, interpolated = np.array([
         [n.md, n.inc_rad, n.azi_rad, n.interpolated]
-        for n in nodes
+        for i, n in enumerate(nodes)
+        if i == 0 or n.md - nodes[i - 1].md > 1e-6
     ]).T
 
     # the nodes are located relative to grid north
-- 
2.43.0


From 983e0f4f1039792dad2daff14f7534246f7e65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 025/109] fix: connecting to a target straight ahead doesn't
 move the target

---
 welleng/connector.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..7db476c 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1273,20 +1273,7 @@ class Connector:
 
         return tangent_temp
 
-    def _mod_pos(self, pos):
-        pos_rand = np.random.random(3)  # * self.delta_radius
-        pos += pos_rand
-
     def _get_distances(self, pos1, vec1, pos_target):
-        # When initializing a `curve_hold_curve` and pos_target is directly
-        # ahead it can cause issues (it's a hold and not a curve). So this code
-        # checks for that condition and if it's the case, will move the
-        # target_pos a sufficient amount to prevent issues.
-        vec_temp = np.array(pos_target - pos1)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            vec_temp = vec_temp / np.linalg.norm(vec_temp)
-        if np.array_equal(vec1, vec_temp):
-            self._mod_pos(pos_target)
         if np.allclose(pos1, pos_target):
             return (0, 0, 0)
 
-- 
2.43.0


From ede35ebc6ce11f3c1e692663a691ba8d6fe978c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 026/109] fix: close on the target at the design curvature
 before tightening the arcs

---
 welleng/connector.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 7db476c..9b6e07a 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1127,14 +1127,24 @@ class Connector:
         best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
 
         r_base = min(self.radius_design, self.radius_design2)
-        for shrink in [0.5, 0.25, 0.125]:
-            r_try = r_base * shrink
+        min_error = self.min_error
+        for shrink in [1.0, 0.5, 0.25, 0.125]:
+            if shrink == 1.0:
+                # The miss may only be the iteration stopping early, so carry
+                # on at the design radii with a tighter tolerance before
+                # giving up on the design DLS.
+                radii = [self.radius_design, self.radius_design2]
+                seed, self.min_error = deepcopy(self.pos3), min_error * 1e-3
+            else:
+                radii = [r_base * shrink] * 2
+                seed, self.min_error = None, min_error
             self.radius_critical  = np.inf
             self.radius_critical2 = np.inf
             minimize_target_pos_and_vec_defined(
-                [r_try, r_try], self, None, None, True
+                radii, self, seed, None, True
             )
             self._happy_finish()
+            self.min_error = min_error
             err_new = self._rendered_endpoint_error()
             if err_new < best_err:
                 best_err   = err_new
-- 
2.43.0


From c5d018b72fe384b53b796d8b37e7f1d282a3a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 027/109] fix: curve to a target offset by the diameter of the
 curve

---
 welleng/connector.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 9b6e07a..7c5b791 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -431,6 +431,10 @@ class Connector:
             self.tangent_length,
             self.dogleg
         ) = min_dist_to_target(self.radius_design, self.distances)
+        self.dogleg = check_diameter(
+            self.dogleg, self.tangent_length,
+            self.radius_design, self.distances
+        )
         self.dogleg = check_dogleg(self.dogleg)
         self.dist_curve, self.func_dogleg = get_curve_hold_data(
             self.radius_design, self.dogleg
@@ -1767,6 +1771,7 @@ def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
 
     distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
     tangent_length, dogleg = min_dist_to_target(radius, distances)
+    dogleg = check_diameter(dogleg, tangent_length, radius, distances)
     # Wrap negative doglegs by +2π to match the scalar Connector
     # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
     # output before building the path). Without this, a geometry that
@@ -1834,6 +1839,42 @@ def min_dist_to_target(radius, distances):
     return tangent_length, dogleg
 
 
+def check_diameter(dogleg, tangent_length, radius, distances):
+    """Determines the dogleg to a target offset by the diameter of the curve.
+
+    Both arguments of the arctangent in ``min_dist_to_target`` vanish when a
+    target ahead is offset from the start vector by the diameter of the curve,
+    so there an equivalent expression is used.
+
+    Parameters
+    ----------
+    dogleg : float or ndarray, shape (...)
+        Curve angle in radians from ``min_dist_to_target``.
+    tangent_length : float or ndarray, shape (...)
+        Hold section length from ``min_dist_to_target``.
+    radius : float or ndarray, shape (...)
+        Radius of curvature for the curve section.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    float or ndarray, shape (...)
+        Curve angle in radians.
+    """
+    _, dist_perp_to_target, dist_norm_to_target = distances
+
+    return np.where(
+        np.isclose(2 * radius, dist_norm_to_target, rtol=1e-6, atol=0)
+        & np.greater(dist_perp_to_target, 0),
+        2 * np.arctan2(
+            dist_norm_to_target, dist_perp_to_target + tangent_length
+        ),
+        dogleg
+    )
+
+
 def min_curve_to_target(distances):
     """Computes minimum-curvature parameters when the design DLS is insufficient.
 
-- 
2.43.0


From 159b0b9c24ca2f2c13242272c513577026299cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 028/109] fix: project_to_target honours dls_design

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a97d47e..708f0b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3030,7 +3030,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design, unit=survey.unit
+            node_bit, node_target, dls_design=dls_design, unit=survey.unit
         )
     )
     survey_to_target = from_connections(
-- 
2.43.0


From 9f6228f2be5e0e5571b05ee068be73b3129d2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 029/109] fix: interpolate curves that turn through more than
 180 degrees

---
 welleng/connector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 7c5b791..7b8d5b8 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2101,6 +2101,9 @@ def interpolate_curve(
         vec = np.tile(vec1, (len(md), 1))
     else:
         rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
+        if dogleg > np.pi:
+            # the long way around, the cross product points the other way
+            rot_axis = -rot_axis
         in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
         vec = (
             np.cos(dogleg_interp) * vec1
-- 
2.43.0


From 7370a62df993c27926bf81b17a26fda8d23a884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 030/109] fix: CNA singular terms use the true azimuth whatever
 the azimuth reference

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..5d1cf9e 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -937,16 +937,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.survey.azi_true_rad[1: -1])
             * mag
         )
         v = np.zeros_like(n)
@@ -962,16 +958,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From f4d4064e074c077e07a8edce2f417cf85c4ceae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 031/109] fix: closest approach to a target inside the turning
 circle

---
 welleng/connector.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 7b8d5b8..2c4fcef 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -575,21 +575,17 @@ class Connector:
         }
 
     def _closest_approach(self):
+        # the circle of the curve lies in the plane of the start vector and
+        # the target, with its center cc towards the target
         vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
-
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
+        vec_pos1_cc = get_unit_vec(
+            vec_pos1_pos_target
+            - np.dot(vec_pos1_pos_target, self.vec1) * self.vec1
         )
 
-        cc_pos_target = self.pos_target - cc
-        cc_pos_target /= np.linalg.norm(cc_pos_target)
+        cc = self.pos1 + vec_pos1_cc * self.radius_design
+
+        cc_pos_target = get_unit_vec(self.pos_target - cc)
 
         self.pos_target_original = copy(self.pos_target)
 
-- 
2.43.0


From 10bbf15648704a2c56015add717fed5d0eaba3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 032/109] fix: drop_off builds or drops directly to the target
 inclination

---
 welleng/connector.py | 41 ++++++++---------------------------------
 1 file changed, 8 insertions(+), 33 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 2c4fcef..26d3596 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2609,26 +2609,7 @@ def drop_off(
         (the arc endpoint) or two (arc endpoint plus tangent endpoint)
         if the target inclination was achieved within the section.
     """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
+    node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.]) if node is None else node
     node.md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
@@ -2638,18 +2619,12 @@ def drop_off(
         else delta_md / radius
     )
 
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
+    # build (or drop) directly towards the target inclination
+    delta_inc = np.radians(target_inc) - node.inc_rad
+    pos2, vec2, arc_length = get_arc(
+        min(abs(delta_inc), max_dogleg), radius,
+        0. if delta_inc >= 0 else np.pi,
+        node.pos_nev, node.vec_nev
     )
     tangent_length = (
         0 if delta_md is None
@@ -2709,7 +2684,7 @@ def extend_to_tvd(
     ... )
     """
     if node is None:
-        node = Node()
+        node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
     node.md = 0 if node.md is None else node.md  # default value is None which complicates things
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
-- 
2.43.0


From 6096ce8069a54a5a8a9deb827225f47269799a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 033/109] fix: connect_points with an integer dls_design

---
 welleng/connector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 26d3596..04ff99a 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2428,8 +2428,8 @@ def connect_points(
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = get_nev(vec_start)
 
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
+    if np.ndim(dls_design) == 0:
+        dls = np.full(len(pos_nev), float(dls_design))
     else:
         dls = np.array(dls_design).reshape(-1, 1)
 
-- 
2.43.0


From 257773aa8da6d98bc127cc63f205979d7838c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 034/109] fix: survey_to_plan called a method that connectors
 don't have

---
 welleng/connector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 04ff99a..00d3732 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2518,10 +2518,13 @@ def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
 def _get_section(
     survey, start, tolerance, dls_design=1., md=0., node=None
 ):
+    # survey imports connector
+    from .survey import from_connections
+
     idx = start + 2
     nev = survey.get_nev_arr()
 
-    if idx > len(nev):
+    if idx > len(nev) - 1:
         idx = len(nev) - 1
 
     if node is None:
@@ -2547,7 +2550,7 @@ def _get_section(
             node2=node_2,
             dls_design=dls_design
         )
-        s = c.survey(step=1.)
+        s = from_connections(c, step=1.)
         if c_old is None:
             c_old = deepcopy(c)
         nev_new = s.get_nev_arr()
-- 
2.43.0


From e5f56916ceb4d620f86a7956ba2b09ae6d38568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 035/109] fix: connect_points with a dls_design per point

---
 welleng/connector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 00d3732..e3611f9 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2431,7 +2431,7 @@ def connect_points(
     if np.ndim(dls_design) == 0:
         dls = np.full(len(pos_nev), float(dls_design))
     else:
-        dls = np.array(dls_design).reshape(-1, 1)
+        dls = np.array(dls_design).reshape(-1)
 
     connections = []
     for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-- 
2.43.0


From ecccfb63b06974b93a74390d83e8d42eadd24b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 036/109] fix: nodes of a connector have its unit

---
 welleng/connector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index e3611f9..ac43797 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -418,12 +418,14 @@ class Connector:
         self.node_start = Node(
             pos=self.pos1.reshape(3),
             vec=self.vec1.reshape(3),
-            md=self.md1
+            md=self.md1,
+            unit=self.unit
         )
         self.node_end = Node(
             pos=self.pos_target.reshape(3),
             vec=self.vec_target.reshape(3),
-            md=self.md_target
+            md=self.md_target,
+            unit=self.unit
         )
 
     def _min_dist_to_target(self):
-- 
2.43.0


From 7b4761159da73b6c6bb3feedf2283c66a25e9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 037/109] fix: Survey.tortuosity_index ignored dls_tol

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 708f0b9..246b158 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1432,7 +1432,7 @@ class Survey:
         """
 
         return tortuosity_index(
-            self, rtol=rtol, dls_tol=None, data=data, **kwargs
+            self, rtol=rtol, dls_tol=dls_tol, data=data, **kwargs
         )
 
     def directional_difficulty_index(self, **kwargs):
-- 
2.43.0


From 944165ba300190a11aad5dade563216439967991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 038/109] fix: tortuosity index of surveys in feet

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 246b158..c266192 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1596,7 +1596,9 @@ def tortuosity_index(survey, rtol=0.01, dls_tol=None, data=False, **kwargs):
     by Pradeep Ashok et al.
     """
     # set default params
-    coeff = kwargs.get('coeff', 0.3048)  # for testing dimensionlessness
+    coeff = kwargs.get(  # for testing dimensionlessness
+        'coeff', 0.3048 if survey.unit == 'meters' else 1.0
+    )
     kappa = kwargs.get('kapa', 1e7)
 
     continuous, starts, mds, locs, n_sections, n_sections_arr = _get_ti_data(
-- 
2.43.0


From b1bd226910e8b1d0563378a5ef797c25db99a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 039/109] fix: directional difficulty index of surveys in feet

---
 welleng/survey.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c266192..93348d4 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1661,18 +1661,20 @@ def directional_difficulty_index(survey, **kwargs):
     data: (n) array of floats
         The ddi for each survey station.
     """
+    unit = ureg.feet if survey.unit == 'feet' else ureg.meters
+
     with np.errstate(divide='ignore', invalid='ignore'):
         ddi = np.nan_to_num(np.log10(
             (
-                (survey.md * ureg.meters).to('ft').m
+                (survey.md * unit).to('ft').m
                 * (
                     np.linalg.norm(
                         (survey.n, survey.e), axis=0
-                    ) * ureg.meters
+                    ) * unit
                 ).to('ft').m
                 * np.cumsum(np.degrees(survey.dogleg))
             )
-            / (survey.tvd * ureg.meters).to('ft').m
+            / (survey.tvd * unit).to('ft').m
         ), nan=0.0, posinf=0.0, neginf=0.0)
 
     return ddi
-- 
2.43.0


From fa7224d829e5e463ce4d30ed92f6300cd1541d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 040/109] fix: maximum curvature mid stations of long intervals
 were past the next station

---
 welleng/survey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 93348d4..c3ca9f5 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1482,6 +1482,10 @@ class Survey:
             self.delta_md * 4 / (2 * np.pi),
             radius_effective
         )
+        # the mid-point stays half way between the stations
+        dogleg1 = (
+            (self.delta_md / radius_effective) / 2
+        )
 
         arc1 = [
             get_arc(dogleg, _radius_effective, toolface, vec=vec)
-- 
2.43.0


From e2bb036b20ad7636da6ff4960c6597642221a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 041/109] fix: separation factor minima of wells that coincide
 raised an error

---
 welleng/clearance.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 9fc6044..c755fc0 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -448,18 +448,18 @@ class IscwsaClearance(Clearance):
 
         for oi in range(max(0, off_idx - 1), min(off_idx + 1, n_off - 2) + 1):
             bound = self.offset.md[oi + 1] - self.offset.md[oi]
-            res = optimize.minimize(
+            # not Powell, which fails for wells that coincide
+            res = optimize.minimize_scalar(
                 lambda t, _oi=oi: norm(
-                    _interpolate_pos_nev(self.offset, t[0], _oi) - ref_pos
+                    _interpolate_pos_nev(self.offset, t, _oi) - ref_pos
                 ),
-                [bound / 2],
-                method='Powell',
-                bounds=[(0, bound)],
+                method='bounded',
+                bounds=(0, bound),
             )
             if res.fun < best_dist:
                 best_dist = res.fun
-                off_pos = _interpolate_pos_nev(self.offset, res.x[0], oi)
-                t_mult = res.x[0] / bound if bound > 0 else 0.0
+                off_pos = _interpolate_pos_nev(self.offset, res.x, oi)
+                t_mult = res.x / bound if bound > 0 else 0.0
                 best_u = off_pos - ref_pos
                 best_off_cov = (
                     off_cov_src[oi]
-- 
2.43.0


From d0cc00b6c4561c5fcb4189d555da3baeefeb26bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 042/109] fix: error models of near vertical surveys with two
 stations

---
 welleng/errors/tool_errors.py | 58 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 5d1cf9e..df06685 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -587,15 +587,16 @@ def ABIXY_TI2(
             )
         )
 
-        e_NEV_sing[1, 1] = (
-            (
-                error.survey.md[2]
-                + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag * cos(error.survey.azi_true_rad[1])
-            / error.survey.header.G
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                (
+                    error.survey.md[2]
+                    + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag * cos(error.survey.azi_true_rad[1])
+                / error.survey.header.G
+            )
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
@@ -672,7 +673,10 @@ def ABXY_TI2(
                 np.zeros((1, 3))
             )
         )
-        if error.error_model.lower().split(' ')[-1] != 'rev4':
+        if (
+            error.error_model.lower().split(' ')[-1] != 'rev4'
+            and len(error.survey.md) > 2
+        ):
             e_NEV_sing[1, 1] = (
                 (
                     error.survey.md[2]
@@ -1774,14 +1778,15 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 0] = (
-            coeff[1]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 0] = (
+                coeff[1]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 0] = (
             coeff[-1]
             * (
@@ -1867,14 +1872,15 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 1] = (
-            coeff[1]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                coeff[1]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 1] = (
             coeff[-1]
             * (
-- 
2.43.0


From c6f5f6f08c71f09a1f2573dc35637afd35209dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 043/109] fix: well propagation of JSON tool models isn't a
 known propagation

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index df06685..0bb17ea 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From 0b3cdb07188b7c79378164d4b61afe5846e54bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 044/109] fix: JSON tool models of floating rigs weren't found

---
 welleng/errors/tool_errors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 0bb17ea..5791597 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -173,7 +173,10 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        json_filename = (
+            _resolve_json_model(model)
+            or _resolve_json_model(error.error_model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
-- 
2.43.0


From dc7f25492348ff5a32652f4324ff8d86e3816c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 045/109] fix: JSON tool models weren't finite at vertical
 stations

---
 welleng/errors/tool_errors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 5791597..d575c40 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -352,7 +352,11 @@ class ToolError:
         d = np.broadcast_to(np.asarray(d, dtype=float), (n,))
         i = np.broadcast_to(np.asarray(i, dtype=float), (n,))
         a = np.broadcast_to(np.asarray(a, dtype=float), (n,))
-        dpde = np.column_stack([d, i, a])
+        # as for the legacy functions, a term that's singular (e.g. 1 / Sin(Inc)
+        # at a vertical station) has no weight there
+        dpde = np.nan_to_num(
+            np.column_stack([d, i, a]), nan=0.0, posinf=0.0, neginf=0.0
+        )
         # Convert the declared magnitude to welleng's SI base. OWSG xlsx
         # publishes magnitudes in the term's natural unit (deg, deg/hr,
         # m, ...); the propagation engine expects rad / m / m/s^2 /
-- 
2.43.0


From 95d4d266775a72b25172500471d64b3184a9d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 046/109] fix: inclination only models had no tortuosity

---
 welleng/errors/tool_errors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index d575c40..fef2dbf 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -202,13 +202,11 @@ class ToolError:
         # self.em = iscwsa_error_models[model]
         if 'Default Tortusity (rad/m)' in self.em['header']:
             self.tortuosity = self.em['header']['Default Tortusity (rad/m)']
-        elif 'XCL Tortuosity' in self.em['header']:
+        else:
             # assuming that this is always 1 deg / 100 ft but this might not
-            # be the case
+            # be the case (the headers of some models don't state it)
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
-        else:
-            self.tortuosity = None
 
         # if model == "iscwsa_mwd_rev5":
         # if model == "ISCWSA MWD Rev5":
-- 
2.43.0


From 1ab9fbea7325cee20af05b643c9f7a114fd3059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 047/109] fix: separation factor is nan when the pedal radius
 is zero

---
 welleng/clearance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index c755fc0..7081727 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -830,12 +830,13 @@ class IscwsaClearance(Clearance):
     def _get_PCRs(self):
         ref_cov = self.ref_cov_nev.reshape(-1, 3, 3)
         off_cov = self.off_cov_nev.reshape(-1, 3, 3)
-        self.ref_pcr = np.sqrt(np.einsum(
+        # rounding can make these (slightly) negative
+        self.ref_pcr = np.sqrt(np.maximum(0.0, np.einsum(
             'ni,nij,nj->n', self.ref_delta_nevs, ref_cov, self.ref_delta_nevs
-        ))
-        self.off_pcr = np.sqrt(np.einsum(
+        )))
+        self.off_pcr = np.sqrt(np.maximum(0.0, np.einsum(
             'ni,nij,nj->n', self.off_delta_nevs, off_cov, self.off_delta_nevs
-        ))
+        )))
 
     def _get_calc_hole(self):
         self.calc_hole = self.Rr + self.Ro[self.idx]
-- 
2.43.0


From b84e38f8723ba8e1ac7560027b73e4691117c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 048/109] fix: clearance of wells that coincide raised an error

---
 welleng/clearance.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 7081727..b6d62ba 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -633,14 +633,7 @@ class IscwsaClearance(Clearance):
         )):
             if i > 0:
                 bnds = [(0, self.offset.md[i] - self.offset.md[i - 1])]
-                res_1 = optimize.minimize(
-                    self._fun,
-                    bnds[0][1],
-                    # method='SLSQP',
-                    method='Powell',
-                    bounds=bnds,
-                    args=(self.offset, i-1, station)
-                    )
+                res_1 = self._minimize_fun(bnds[0], i - 1, station)
                 mult = res_1.x[0] / (bnds[0][1] - bnds[0][0])
                 sigma_new_1 = self._interpolate_covs(i, mult)
             else:
@@ -648,14 +641,7 @@ class IscwsaClearance(Clearance):
 
             if i < len(self.offset_nevs) - 1:
                 bnds = [(0, self.offset.md[i + 1] - self.offset.md[i])]
-                res_2 = optimize.minimize(
-                    self._fun,
-                    bnds[0][0],
-                    # method='SLSQP',
-                    method='Powell',
-                    bounds=bnds,
-                    args=(self.offset, i, station)
-                    )
+                res_2 = self._minimize_fun(bnds[0], i, station)
                 mult = res_2.x[0] / (bnds[0][1] - bnds[0][0])
                 sigma_new_2 = self._interpolate_covs(i + 1, mult)
             else:
@@ -722,6 +708,24 @@ class IscwsaClearance(Clearance):
             unit=self.offset.unit
         )
 
+    def _minimize_fun(self, bounds, index, station):
+        """
+        Finds the closest point to the station between a pair of offset well
+        survey stations (Powell fails when the wells coincide).
+        """
+        res = optimize.minimize_scalar(
+            lambda x: self._fun([x], self.offset, index, station),
+            method='bounded',
+            bounds=bounds
+        )
+        for x in bounds:  # the end points aren't evaluated
+            fun = self._fun([x], self.offset, index, station)
+            if fun <= res.fun:
+                res.x, res.fun = x, fun
+        res.x = np.atleast_1d(res.x)
+
+        return res
+
     def _compute_off_cov_sidetrack_correction(self):
         """
         Per the ISCWSA standard (paragraph 81), uncertainty for sidetrack
-- 
2.43.0


From cfc5703c0dc63290891a0bd62aaa400a1205976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 049/109] fix: separation factor minima only looked near the
 offset station of the reference station

---
 welleng/clearance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index b6d62ba..d3aa392 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -436,9 +436,10 @@ class IscwsaClearance(Clearance):
         ).reshape(3, 3)
         ref_r = self.Rr[ii + 1]
 
-        # Find closest point on offset in the two intervals around self.idx[i]
+        # Find closest point on offset in the two intervals around the nearest
+        # station (which isn't always that of the reference station)
         off_cov_src = self.offset.cov_nev
-        off_idx = self.idx[i]
+        off_idx = np.argmin(norm(self.offset_nevs - ref_pos, axis=-1))
         n_off = len(self.offset.md)
 
         best_dist = np.inf
-- 
2.43.0


From 8eebd53ef00167db72c10b15eafde52054861f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 050/109] fix: ABIZ azimuth error is divided by gravity

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index fef2dbf..347bf03 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -484,7 +484,7 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error) * error.survey.header.G
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
 
     dpde = np.zeros((len(error.survey_rad), 3))
-- 
2.43.0


From 9fd64ab58a4a9d13ab3aa81feac24e647ae473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 051/109] fix: XYM3E inclination error keeps the sign of the
 azimuth's cosine

---
 welleng/errors/tool_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 347bf03..b5c8cf7 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1440,9 +1440,10 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
         )
     ), axis=-1), axis=-1)
 
+    # as for XYM3L, cos(azi) keeps its sign
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
-- 
2.43.0


From e7fb120e1a17a120663789d3fdaa1172d787bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 052/109] fix: XYM3E and XYM4E at vertical stations don't
 depend on the azimuth

---
 welleng/errors/tool_errors.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index b5c8cf7..5e67877 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1471,14 +1471,19 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     if len(sing[0]) < 1:
         return error._generate_error(code, e_DIA, propagation, NEV)
     else:
+        # a misalignment to the north, whatever the azimuth of the station
+        delta_md = np.diff(error.survey.md)
+        delta_md[0] *= 2  # as for XYM3L, the full first interval
+
         e_NEV = error._e_NEV(e_DIA)
         e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
+        e_NEV_sing[1:, 0] = coeff[1:] * delta_md / 2 * mag
+        e_NEV_sing[1:-1, 0] += coeff[1:-1] * delta_md[1:] / 2 * mag
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing[1:, 0] = coeff[1:] * delta_md / 2 * mag
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 972950b6703ed5b58ce690a86fcd981d2f554815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 053/109] fix: short intervals weigh the misalignment of
 vertical stations alike

---
 welleng/errors/tool_errors.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 5e67877..1ebe8a9 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1791,7 +1791,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         )
         if len(error.survey.md) > 2:
             e_NEV_sing[1, 0] = (
-                coeff[1]
+                coeff[0]
                 * (
                     error.survey.md[2] + error.survey.md[1]
                     - 2 * error.survey.md[0]
@@ -1812,7 +1812,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 0] = (
-            (
+            coeff
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
@@ -1821,7 +1822,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
         e_NEV_star_sing[1, 0] = (
-            (error.survey.md[1] - error.survey.md[0])
+            coeff[0]
+            * (error.survey.md[1] - error.survey.md[0])
             * mag
         )
 
@@ -1906,14 +1908,16 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 1] = (
-            (
+            coeff[1:]
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
         e_NEV_star_sing[1, 1] = (
-            (
+            coeff[1]
+            * (
                 error.survey.md[1]
                 - error.survey.md[0]
             )
-- 
2.43.0


From 3214537e21cf9ba4f7b60fca3242537c2c4af835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 054/109] fix: vertical last station had no misalignment or
 accelerometer bias error

---
 welleng/errors/tool_errors.py | 48 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 1ebe8a9..93f1761 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -606,19 +606,18 @@ def ABIXY_TI2(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * -sin(error.drdp_sing['azi2']) * mag
+            0.5 * np.diff(error.survey.md)
+                * -sin(error.survey.azi_true_rad[1:]) * mag
             ) / error.survey.header.G
         e = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * cos(error.drdp_sing['azi2']) * mag
+            0.5 * np.diff(error.survey.md)
+                * cos(error.survey.azi_true_rad[1:]) * mag
             ) / error.survey.header.G
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
@@ -695,19 +694,18 @@ def ABXY_TI2(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * -sin(error.drdp_sing['azi2']) * mag
+            0.5 * np.diff(error.survey.md)
+                * -sin(error.survey.azi_true_rad[1:]) * mag
             ) / error.survey.header.G
         e = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * cos(error.drdp_sing['azi2']) * mag
+            0.5 * np.diff(error.survey.md)
+                * cos(error.survey.azi_true_rad[1:]) * mag
             ) / error.survey.header.G
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
@@ -966,20 +964,20 @@ def CNA(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
-            np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(error.survey.azi_true_rad[1: -1])
+            np.array(0.5 * np.diff(error.survey.md))
+            * -sin(error.survey.azi_true_rad[1:])
             * mag
         )
         e = (
-            np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(error.survey.azi_true_rad[1: -1])
+            np.array(0.5 * np.diff(error.survey.md))
+            * cos(error.survey.azi_true_rad[1:])
             * mag
         )
+        v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1408,14 +1406,13 @@ def XYM3(
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
-        n = np.array(0.5 * error.drdp_sing['delta_md'] * mag)
-        e = np.zeros(len(error.drdp_sing['delta_md']))
+        n = np.array(0.5 * np.diff(error.survey.md) * mag)
+        e = np.zeros(len(np.diff(error.survey.md)))
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1532,14 +1529,13 @@ def XYM4(
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
-        n = np.zeros(len(error.drdp_sing['delta_md']))
-        e = np.array(0.5 * error.drdp_sing['delta_md'] * mag)
+        n = np.zeros(len(np.diff(error.survey.md)))
+        e = np.array(0.5 * np.diff(error.survey.md) * mag)
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
-- 
2.43.0


From 3f6bef0067dd69cd94f6cfe2e1b041446126ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 055/109] fix: error models of surveys in feet

---
 welleng/error.py | 52 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/welleng/error.py b/welleng/error.py
index 28a8154..1a241c3 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -10,6 +10,7 @@ correct) covariance output. ``"ISCWSA MWD Rev4"`` is unchanged.
 
 import os
 import warnings
+from copy import copy
 
 import numpy as np
 import yaml
@@ -29,6 +30,7 @@ _DEPRECATED_ERROR_MODEL_ALIASES = {
 # negative value for rig floor elevation).
 
 ACCURACY = 1e-4
+FEET = 0.3048
 PATH = os.path.dirname(__file__)
 TOOL_INDEX_FILENAME = os.path.join(
     '', *[PATH, 'errors', 'tool_index.yaml']
@@ -178,6 +180,14 @@ class ErrorModel():
         self.error_model = error_model
         self.survey = survey
 
+        # the error models are metric, so a survey in feet is evaluated in
+        # meters and its errors are returned in feet
+        feet = survey.unit == 'feet'
+        if feet:
+            self.survey = copy(survey)
+            self.survey.md = np.asarray(survey.md) * FEET
+            self.survey.tvd = np.asarray(survey.tvd) * FEET
+
         self.survey_rad = np.stack((
             self.survey.md,
             self.survey.inc_rad,
@@ -204,6 +214,48 @@ class ErrorModel():
             model=model
         )
 
+        if feet:
+            self._convert_to_feet(survey)
+
+    def _convert_to_feet(self, survey):
+        """Convert the errors that were evaluated in meters to feet.
+
+        Parameters
+        ----------
+        survey : welleng.survey.Survey
+            The survey in feet.
+        """
+        dia = np.array([1 / FEET, 1., 1.])
+
+        for err in self.errors.errors.values():
+            err.e_DIA = err.e_DIA * dia
+            err.cov_DIA = err.cov_DIA * np.outer(dia, dia)
+            err.e_NEV = err.e_NEV / FEET
+            err.e_NEV_star = err.e_NEV_star / FEET
+            err.sigma_e_NEV = (
+                err.sigma_e_NEV
+                / FEET ** (2 if err.propagation == 'random' else 1)
+            )
+            err.cov_NEV = err.cov_NEV / FEET ** 2
+
+        for name in (
+            'cov_NEVs', 'cov_NEVs_random', 'cov_NEVs_systematic',
+            'cov_NEVs_global', 'cov_NEVs_within_pad', 'cov_HLAs'
+        ):
+            setattr(
+                self.errors, name, getattr(self.errors, name) / FEET ** 2
+            )
+
+        self.survey = survey
+        self.survey_rad = np.stack((
+            survey.md,
+            survey.inc_rad,
+            survey.azi_true_rad
+        ), axis=-1)
+        self.survey_drdp = self.survey_rad
+        self.drdp = self._drdp(self.survey_drdp)
+        self.drdp_sing = self._drdp_sing(self.survey_drdp)
+
     def _e_NEV(self, e_DIA):
         D, I, A = e_DIA.T
         arr = np.column_stack([
-- 
2.43.0


From 7b2103764c926d0c3715e841d4ac1ba0104dee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 056/109] fix: default well bore radius of surveys in feet

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c3ca9f5..5f33bb5 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -837,7 +837,9 @@ class Survey:
 
     def _get_radius(self, radius=None):
         if radius is None:
-            self.radius = np.full_like(self.md.astype(float), 0.3048)
+            self.radius = np.full_like(
+                self.md.astype(float), 1.0 if self.unit == 'feet' else 0.3048
+            )
         elif np.array([radius]).shape[-1] == 1:
             self.radius = np.full_like(self.md.astype(float), radius)
         else:
-- 
2.43.0


From 789ed233ad5a47c0918e13f59719c183becba437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 057/109] fix: surveys accept the deprecated ISCWSA MWD Rev5
 alias

---
 welleng/survey.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5f33bb5..b4bfd73 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -35,7 +35,9 @@ from .utils import (
     radius_from_dls,
     get_arc
 )
-from .error import ErrorModel, ERROR_MODELS
+from .error import (
+    ErrorModel, ERROR_MODELS, _DEPRECATED_ERROR_MODEL_ALIASES
+)
 from .node import Node
 from .connector import Connector, interpolate_well
 from .visual import figure
@@ -746,7 +748,7 @@ class Survey:
 
         # initialize errors
         # TODO: read this from a yaml file in errors
-        error_models = ERROR_MODELS
+        error_models = [*ERROR_MODELS, *_DEPRECATED_ERROR_MODEL_ALIASES]
         if error_model is not None:
             assert error_model in error_models, "Unrecognized error model"
         self.error_model = error_model
@@ -933,7 +935,9 @@ class Survey:
         AssertionError
             If ``error_model`` is not a recognized model name.
         """
-        assert error_model in ERROR_MODELS, "Undefined error model"
+        assert error_model in [
+            *ERROR_MODELS, *_DEPRECATED_ERROR_MODEL_ALIASES
+        ], "Undefined error model"
 
         self.error_model = error_model
         self._get_errors()
-- 
2.43.0


From f9ac49810bce51e15ca36f77daceb6d9d070f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 058/109] fix: fixed rig JSON tool models could get the
 floating rig's errors

---
 welleng/errors/tool_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 93f1761..3de5812 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -174,8 +174,9 @@ class ToolError:
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
         json_filename = (
-            _resolve_json_model(model)
-            or _resolve_json_model(error.error_model)
+            # the fixed and floating rig models share their prefix
+            _resolve_json_model(error.error_model)
+            or _resolve_json_model(model)
         )
 
         self._json_path = None
-- 
2.43.0


From 60b1b111277492b0b56b20ccfff1cb5598134e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 059/109] fix: diagnostic data of a model without errors

---
 welleng/error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/error.py b/welleng/error.py
index 1a241c3..f97f236 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -624,7 +624,7 @@ def make_diagnostic_data(survey):
         for k, v in survey.err.errors.errors.items():
             diagnostic[d][k] = get_errors(v.cov_NEV[i])
             total.extend(diagnostic[d][k])
-        diagnostic[d]['TOTAL'] = np.sum((np.array(
-            total
-        ).reshape(-1, len(diagnostic[d][k]))), axis=0)
+        diagnostic[d]['TOTAL'] = np.sum(
+            np.array(total).reshape(-1, 6), axis=0
+        )
     return diagnostic
-- 
2.43.0


From 04815a0a46bc845313d665e6bfa3453bb2908c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 060/109] fix: degrees, minutes and seconds lost the sign of
 values between -1 and 0 and could have 60 seconds

---
 welleng/utils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 8fe65b4..3b6d5b1 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -706,21 +706,33 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
         _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
         direction = None
     _decimal = float(_decimal)
-    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
+    # round first, so that the seconds can't be rounded to 60
+    seconds = abs(_decimal) * 3600
+    if ndigits is not None:
+        seconds = round(seconds, ndigits)
+    minutes, seconds = divmod(seconds, 60)
+    degrees, minutes = divmod(minutes, 60)
+    degrees = _signed_degrees(np.copysign(degrees, _decimal))
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits)
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits),
         direction
     ], dtype=object)
 
 
+def _signed_degrees(degrees: float) -> int | float:
+    """Whole degrees are integers, apart from -0.0 that carries the sign."""
+    if degrees == 0 and np.signbit(degrees):
+        return -0.0
+    return int(degrees)
+
+
 def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
     """Converts a decimal lat, lon to degrees, minutes and seconds.
 
@@ -751,8 +763,8 @@ def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArra
     """
     flag = False
     _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
-        _decimal = _decimal.reshape((-1, 1))
+    if np.issubdtype(_decimal.dtype, np.number):
+        _decimal = _decimal.astype(float).reshape((-1, 1))
         flag = True
     try:
         dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-- 
2.43.0


From 9fabf3cfffc616c9ba389e66fc8b8b9d312930d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 061/109] fix: printed degrees, minutes and seconds weren't
 read back with sign, decimals or exponents

---
 welleng/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 3b6d5b1..6f9b988 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -878,18 +878,22 @@ def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
 def dms_from_string(text):
     """Extracts the values from a string dms x or y or northing or easting.
     """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    number = r'([+-]?\d+(?:\.\d*)?(?:e[+-]?\d+)?)'
+    pattern = re.compile(
+        number + r'\s*(?:°|deg)?,\s*' + number + r'\s*(?:\'|min)?,\s*'
+        + number + r'\s*(?:"|sec)?\s*.*?(\S+)?$', re.IGNORECASE
+    )
     matches = pattern.findall(text)
 
     if matches:
-        deg, min, sec_str = matches[0][:3]
-        sec = float(sec_str)
+        deg, min, sec = (float(x) for x in matches[0][:3])
+        deg = _signed_degrees(deg)
         final_data = matches[0][-1] if matches[0][-1] else None
 
         if final_data:
-            return (int(deg), int(min), sec, final_data)
+            return (deg, int(min), sec, final_data)
         else:
-            return (int(deg), int(min), sec)
+            return (deg, int(min), sec)
 
     else:
         return
-- 
2.43.0


From d75d8584bfc97f3639d7f08511ace0ea874d0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 062/109] fix: nodes without a direction had no azi_deg

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From c3816dd5d8173dcd224c21c2c460b4954cf247de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 063/109] fix: torque and drag raised a TypeError for any
 string

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6e9698c..7d04a2c 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -198,7 +198,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -214,7 +214,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From d6fd893eb2d8c4e7ec621c3e0ce01c2b4c4c5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 064/109] fix: torque and drag were misaligned for strings that
 end with a well bore section between stations

---
 welleng/torque_drag.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 7d04a2c..b602651 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -108,20 +108,19 @@ class TorqueDrag:
         """
         q = []
 
-        for k, v in self.wellbore.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
-
-        for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
+        # the well bore and the string can have depths in common
+        bottoms = {
+            v['bottom'] for sections in (
+                self.wellbore.sections, self.string.sections
+            )
+            for v in sections.values()
+        }
+        for bottom in sorted(bottoms):
+            if bottom in self.survey_original.md:
                 continue
             else:
                 q.append(interpolate_md(
-                    self.survey_original, v['bottom']
+                    self.survey_original, bottom
                 ))
 
         md, inc, azi = (
-- 
2.43.0


From a0fb4b542d911e73b853dc68e40f36bb28313a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 065/109] fix: torque used the radius of the string from the
 wrong end

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index b602651..61e5f8f 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -256,7 +256,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From 297fd202b92a8860a91c97b46114001839b23788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 066/109] fix: torque and drag of wells that turn through north

---
 welleng/torque_drag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 61e5f8f..a46632a 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -170,9 +170,11 @@ class TorqueDrag:
     def get_azi_delta(self):
         """Calculate the azimuth change between consecutive survey stations."""
         self.azi_delta = np.zeros_like(self.survey.azi_grid_rad)
+        # the short way round when straddling north
         self.azi_delta[1:] = (
             self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
-        )
+            + np.pi
+        ) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
-- 
2.43.0


From 62ba4cdc08e081d7c5da7b4cee529db3bf5756e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 067/109] fix: sections of a string added by their top or
 without a length raised an error

---
 welleng/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..5490b96 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -141,12 +141,12 @@ class String:
             top = bottom - kwargs.get('length')
             if top < self.top:
                 top = self.top
-                length = bottom - top
-        elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+                kwargs['length'] = bottom - top
         else:
-            top = self.top
-            length = self.sections[0]['top']
+            top = kwargs.get('top')
+            if top is None:
+                top = self.top
+            kwargs['length'] = bottom - top
 
         self.sections[temp] = {}
         self.sections[temp]['top'] = top
-- 
2.43.0


From c3034b0a50391b5dcaeaff1ddb76dce879919505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 068/109] fix: sections that don't fit a string were rejected
 but kept

---
 welleng/architecture.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 5490b96..3334e8f 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -83,24 +83,26 @@ class String:
             temp = len(self.sections)
             top = self.sections[temp - 1]['bottom']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
+        # only keep the section if it's valid
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['top']
+                sections.items(), key=lambda item: item[1]['top']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -109,7 +111,7 @@ class String:
                 assert v['top'] == self.top
             else:
                 assert v['top'] == temp[k - 1]['bottom']
-            assert v['bottom'] <= self.bottom
+            assert v['top'] <= v['bottom'] <= self.bottom
 
         if temp[len(temp) - 1]['bottom'] == self.bottom:
             self.complete = True
@@ -148,25 +150,27 @@ class String:
                 top = self.top
             kwargs['length'] = bottom - top
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
+        # only keep the section if it's valid
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
+        sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['bottom']
+                sections.items(), key=lambda item: item[1]['bottom']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -176,7 +180,7 @@ class String:
                 assert v['bottom'] == self.bottom
             else:
                 assert v['bottom'] == temp[k + 1]['top']
-            assert v['top'] >= self.top
+            assert self.top <= v['top'] <= v['bottom']
 
         if temp[0]['top'] == self.top:
             self.complete = True
-- 
2.43.0


From 525faef0b269850dda48f9072a4a1fe1992b0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 069/109] fix: strings built from the top down couldn't be
 moved to another depth

---
 welleng/architecture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 3334e8f..4fef098 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -48,8 +48,10 @@ class String:
                     k: v for k, v in self.sections[section].items()
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
+            # sections built from the top down don't have a length
+            top = self.sections[section]['top'] - (self.bottom - md)
             string_new.add_section(
-                length=self.sections[section]['length'], **params
+                top=max(top, self.top), **params
             )
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
-- 
2.43.0


From 239be6d3c6d51c065abdd23ee477bdf53e5a3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 070/109] fix: volumes of a fluid didn't add up to its density

---
 welleng/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..1bca6fb 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -130,7 +130,7 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (self.density_weighting_material - self.density_fluid_reference)
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From 0c7a7a99df5b1f18970b660cde340f8e3b501050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 071/109] fix: density profile of lists of temperatures

---
 welleng/fluid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index 1bca6fb..c9c0238 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -238,6 +238,7 @@ class Fluid:
 
         # Convert to (n) array to manage single float or list/array
         depth = np.array([depth]).reshape(-1)
+        temperature = np.array([temperature]).reshape(-1)
         with np.errstate(invalid='ignore'):
             temperature_thermal_gradient = np.nan_to_num((
                 temperature - self.temp_reference
-- 
2.43.0


From c42517cdf7743cdea39d9d6bffe7a122b7562c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 072/109] fix: diesel densities used a removed SciPy function

---
 welleng/fluid.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index c9c0238..3773afa 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -31,8 +31,6 @@ class DensityDiesel:
         psia = np.array([15., 3_000., 7_000., 10_000., 12_500.])
         temp = np.array([100., 200., 300., 350.])
 
-        psia_psia, temp_temp = np.meshgrid(psia, temp)
-
         rho = np.array([
             [6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
             [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
@@ -40,8 +38,8 @@ class DensityDiesel:
             [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]
         ])
 
-        self.density_diesel = interpolate.interp2d(
-            psia_psia, temp_temp, rho, kind='cubic'
+        self.density_diesel = interpolate.RectBivariateSpline(
+            temp, psia, rho
         )
 
     def get_density(self, pressure, temperature):
@@ -49,11 +47,12 @@ class DensityDiesel:
         Interpolate diesel density for given pressure and temperature using
         the lookup data provided in SPE 11118 paper.
         """
-        density = self.density_diesel(
-            pressure, temperature
+        temperature, pressure = np.meshgrid(
+            temperature, pressure, indexing='ij'
         )
+        density = self.density_diesel.ev(temperature, pressure)
 
-        return density
+        return density[0] if len(density) == 1 else density
 
 class Fluid:
     def __init__(
-- 
2.43.0


From 9f786e78fe6df223ec4888a2b300047cf21f5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 073/109] fix: torque and drag didn't find the bottom of
 strings between stations

---
 welleng/torque_drag.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index a46632a..fba4593 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -119,9 +119,9 @@ class TorqueDrag:
             if bottom in self.survey_original.md:
                 continue
             else:
-                q.append(interpolate_md(
+                q.append((bottom, interpolate_md(
                     self.survey_original, bottom
-                ))
+                )))
 
         md, inc, azi = (
             self.survey_original.md.tolist(),
@@ -129,9 +129,10 @@ class TorqueDrag:
             self.survey_original.azi_grid_rad.tolist()
         )
 
-        md.extend([station.md[-1] for station in q])
-        inc.extend([station.inc_rad[-1] for station in q])
-        azi.extend([station.azi_grid_rad[-1] for station in q])
+        # the interpolated depth can be off by a rounding error
+        md.extend([bottom for bottom, station in q])
+        inc.extend([station.inc_rad[-1] for bottom, station in q])
+        azi.extend([station.azi_grid_rad[-1] for bottom, station in q])
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-- 
2.43.0


From 70e50c315fed8ec04c7fe588f5ad4d562e832df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 074/109] fix: EDM queries with several attributes matched the
 first ones alone and repeated results

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..af1dadc 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From 41230f1e754ea7f91bc28564599abb14fc60c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 075/109] fix: parents of EDM well bores and surveys included
 those of earlier queries

---
 welleng/exchange/edm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index af1dadc..e198830 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -173,7 +173,9 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        if predecessors is None:
+            predecessors = []
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
@@ -398,7 +400,9 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        if data is None:
+            data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From 23005d08b190e6ff55229498f9b328e14f2fcf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 076/109] fix: surveys of EDM cases missed the stations of the
 survey at the top of the chain

---
 welleng/exchange/edm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index e198830..57ac575 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -404,13 +404,15 @@ class Well:
         if data is None:
             data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
-            if (
-                sh['survey_header_id'] == survey_header_id
-                and 'tie_survey_header_id' in sh
-            ):
+            if sh['survey_header_id'] != survey_header_id:
+                continue
+            if 'tie_survey_header_id' in sh:
                 tsh_id = sh['tie_survey_header_id']
                 data[survey_header_id] = sh['tie_on_depth']
                 self.get_parent_surveys(tsh_id, data)
+            else:
+                # not tied to another survey, so it's used from the top
+                data[survey_header_id] = 0
         return data
 
     def get_data(
-- 
2.43.0


From 63635d16e3570cf9fc49caac8c9a36afd306a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 077/109] fix: data of EDM well bores without a parent had its
 well and datum twice

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 57ac575..b41eb32 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -169,7 +169,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From d70c23edb050b0b9ff61be6a7654da759a956ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 078/109] fix: local coordinates of well plans (north for east,
 and np.float with a parent)

---
 welleng/exchange/wbp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..2199458 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -212,6 +212,7 @@ class WellPlan:
             self._get_local_coordinates()
 
     def _get_local_coordinates(self):
+        # the locations and the surface datum are [e, n, v]
         sd = np.zeros(3)
         sd[:2] = self.surface_datum[:2]
         self.env_local = np.vstack([
@@ -223,13 +224,13 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-                self.survey.n,
                 self.survey.e,
-                self.survey.tvd
+                self.survey.n,
+                -self.survey.tvd
             ]).T[0]
 
     def _process_wbp_data(self):
-- 
2.43.0


From 223a12391ce6fbe4afeeb0bc5679f51298926991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 079/109] fix: targets of wbp files shared one geometry and
 well plans shared targets

---
 welleng/exchange/wbp.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 2199458..7800b24 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -32,7 +32,11 @@ class Target:
         self,
         name,
         location=None,
-        geometry={
+        geometry=None,
+    ):
+        self.name = name
+        self.location = location
+        self.geometry = {
             'type': None,
             'locked': None,
             'offset': None,
@@ -51,11 +55,7 @@ class Target:
                 'feature': None
             },
             'category': None,
-        },
-    ):
-        self.name = name
-        self.location = location
-        self.geometry = geometry
+        } if geometry is None else geometry
 
 
 class SurveyPoint:
@@ -107,7 +107,7 @@ class WellPlan:
         dls=3.0,
         extension=0,
         wbp_data=None,
-        targets=[],
+        targets=None,
         line=None,
         parent_wbp_file=None,
     ):
@@ -150,7 +150,7 @@ class WellPlan:
                 A list of strings with each string representing a line from
                 of text loaded from a .wbp file. Used for importing .wbp
                 data.
-            targets: list of welleng.exchange.wbp.Target objects (default: [])
+            targets: list of welleng.exchange.wbp.Target objects (default: None)
                 A list of target objects, but more of a future function.
             line: int (default: None)
                 Used for processing .wbp files that contain multiple well
@@ -176,7 +176,7 @@ class WellPlan:
 
         self.depth_unit = depth_unit
         self.surface_unit = surface_unit
-        self.targets = targets
+        self.targets = [] if targets is None else targets
         if line is None:
             self.lines = 0
         else:
-- 
2.43.0


From 5008a06486b9f3d85f9f57b17a055e8ceb5fc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 080/109] fix: wbp files with a target geometry couldn't be
 loaded

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 7800b24..aa5521a 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -297,9 +297,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From 473dbfc9cc9449f156fd50f14d2f36cd198dc7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 081/109] fix: well plans loaded from wbp files couldn't be
 exported

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index aa5521a..dfc159f 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -481,6 +481,7 @@ def add_header(doc, data):
     ignored_integer_2 = " 123"
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
     doc.append((
         f"W:"
         f"{get_key(d['type'], data.location_type)}"
@@ -489,7 +490,7 @@ def add_header(doc, data):
         f"{get_key(d['dirty_flag'], data.dirty_flag)}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
         f" {data.dls:>6.2f}"
-- 
2.43.0


From e03cf3c747588973ae3644ba0b5ff3581e3d4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 082/109] fix: wbp plans couldn't be made into a survey

---
 welleng/exchange/wbp.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index dfc159f..e7e7937 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -4,6 +4,7 @@ from ..survey import (
     TurnPoint,
     Survey,
     SurveyHeader,
+    _grid_header,
     get_sections,
     from_connections,
 )
@@ -704,6 +705,7 @@ def wbp_to_survey(
             inc2=s.inc,
             azi2=s.azi,
             dls_design=dls_design,
+            unit=data.depth_unit,
         )
         if isinstance(s, TurnPoint):
             dls.append(s.dls)
@@ -718,14 +720,12 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
+    # utm coordinates are in meters
+    factor = 0.3048 if data.surface_unit == 'feet' else 1.0
 
     lat, lon = utm.to_latlon(
-        start_nev[1],
-        start_nev[0],
+        start_nev[1] * factor,
+        start_nev[0] * factor,
         utm_zone,
         northern=utm_north,
     )
@@ -736,12 +736,15 @@ def wbp_to_survey(
         altitude=start_nev[-1] * -1,
         azi_reference=azi_reference,
         convergence=convergence,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
     )
 
+    # the connections start from the location of the first step
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
         deg=False
     )
@@ -775,14 +778,12 @@ def strip_duplicates(survey):
         if i == 0:
             temp.append(s)
             continue
-        # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if s == temp[-1]:
             continue
         else:
             temp.append(s)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = _grid_header(survey.header)
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
 
@@ -794,6 +795,7 @@ def strip_duplicates(survey):
         start_nev=survey.start_nev,
         radius=radius,
         header=sh,
+        unit=survey.unit,
     )
 
     return survey_stripped
-- 
2.43.0


From f8ad380e71d3addda6dba1de768bd93a28ae24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 083/109] fix: transform_coordinates took x for the northing of
 northing first projections

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index b4bfd73..7fc8871 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -254,8 +254,9 @@ class SurveyParameters(Proj):
         >>> print(result)
         [[ 588225.93417027 5770360.56500115]]
         """
+        # coordinates are (x, y), also for northing first projections
         transformer = Transformer.from_crs(
-            self.crs, CRS(to_projection)
+            self.crs, CRS(to_projection), always_xy=True
         )
         _coords = np.array(coords)
         result = list(transformer.itransform(
-- 
2.43.0


From c31b83bc1a922600c7eb46b8ae06fa77e0cb7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 084/109] fix: get_vec ignored the length asked for

---
 welleng/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 6f9b988..4ed432c 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -180,16 +180,18 @@ def get_vec(inc, azi, nev=False, r=1, deg=True):
     else:
         inc_rad = inc
         azi_rad = azi
-    y = r * np.sin(inc_rad) * np.cos(azi_rad)
-    x = r * np.sin(inc_rad) * np.sin(azi_rad)
-    z = r * np.cos(inc_rad)
+    y = np.sin(inc_rad) * np.cos(azi_rad)
+    x = np.sin(inc_rad) * np.sin(azi_rad)
+    z = np.cos(inc_rad)
 
     if nev:
         vec = np.column_stack([y, x, z])
     else:
         vec = np.column_stack([x, y, z])
 
-    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+    return vec * np.reshape(r, (-1, 1))
 
 
 def get_nev(
-- 
2.43.0


From f246a6a6a00ce40df5378441092475c6ce3c4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 085/109] fix: meshes with few vertices were twisted by
 reversing aligned rings

---
 welleng/mesh.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..d393e8e 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -267,17 +267,15 @@ class WellMesh:
                 key = units_1[0]
                 idx_key = nearest.query(key)[1]
 
-                rotation = units_1[3]
+                rotation = units_1[self.n_verts // 4]
                 idx_rotation = nearest.query(rotation)[1]
 
                 # re-order vecs_2 to align with vecs_1
                 verts_new = np.vstack((verts[idx_key:], verts[:idx_key]))
 
-                if (
-                    (idx_rotation - idx_key) < 0
-                    and abs(idx_rotation - idx_key) < len(verts) / 2
-                ):
-                    verts_new = verts_new[::-1]
+                if (idx_rotation - idx_key) % len(verts) > len(verts) / 2:
+                    # reverse the order but keep the key vertex first
+                    verts_new = np.roll(verts_new[::-1], 1, axis=0)
 
                 verts_new_list.append([verts_new])
 
-- 
2.43.0


From 8418bc6414ff05fd7c66a32921cc4411c5a3da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 086/109] fix: the default method of sliced_mesh was not a
 method of WellMesh

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index d393e8e..6d09958 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -429,7 +429,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From 5a3ea34a2c1168943df0b2e7017f8a0ac4416f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 087/109] fix: transform_trimesh_scene used a removed method,
 dropped its result and refused arrays

---
 welleng/mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 6d09958..8280555 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -396,7 +396,7 @@ def transform_trimesh_scene(scene, origin=None, scale=100, redux=0.25):
     """
     assert TRIMESH, "ImportError: try pip install welleng[easy]"
     i = 0
-    if not origin:
+    if origin is None:
         T = np.array([0, 0, 0])
     else:
         T = np.array(origin)
@@ -405,9 +405,10 @@ def transform_trimesh_scene(scene, origin=None, scale=100, redux=0.25):
         name, mesh = well
         mesh_new = mesh.copy()
 
-        mesh_new.simplify_quadratic_decimation(
-            int(len(mesh_new.triangles) * redux)
-        )
+        if redux < 1:
+            mesh_new = mesh_new.simplify_quadric_decimation(
+                face_count=int(len(mesh_new.triangles) * redux)
+            )
         mesh_new.vertices -= T
 
         # change axis convention for visualisation #
-- 
2.43.0


From beb26dc7de842a4e62499c9cd8421bac2b2c3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 088/109] fix: get_sigmas returned NaN for variances that round
 to less than zero

---
 welleng/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 4ed432c..7a454b1 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -384,7 +384,8 @@ def get_sigmas(cov, long=False):
     if long:
         return (aa, bb, cc, ab, ac, bc)
     else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+        # rounding can leave variances of zero slightly negative
+        return tuple(np.sqrt(np.maximum(v, 0)) for v in (aa, bb, cc))
 
 
 def get_unit_vec(vec):
-- 
2.43.0


From 32839670849fc09fca244e8e73ec95e051e2c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 089/109] fix: MeshClearance made its meshes without the
 sigma_pa asked for

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index d3aa392..c7da330 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -966,6 +966,7 @@ class MeshClearance(Clearance):
             survey=survey,
             n_verts=self.n_verts,
             sigma=self.sigma,
+            sigma_pa=self.sigma_pa,
             Sm=Sm,
         )
 
-- 
2.43.0


From 799bcfacd69cd533dd43a9c6f7506fda2037d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 090/109] fix: MeshClearance missed collisions of well bores
 inside one another

---
 welleng/clearance.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index c7da330..498d7f6 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -994,6 +994,15 @@ class MeshClearance(Clearance):
                 m, return_names=self.return_data, return_data=self.return_data
             )
 
+            # surfaces don't intersect if one mesh is inside the other
+            if not (collision[0] if self.return_data else collision) and (
+                mesh_contains(self.off_mesh, m.vertices[0])
+                or mesh_contains(m, self.off_mesh.vertices[0])
+            ):
+                collision = (
+                    (True, {"offset"}, []) if self.return_data else True
+                )
+
             if self.return_data:
                 distance = self.cm.min_distance_single(
                     m, return_name=True, return_data=True
@@ -1115,6 +1124,36 @@ class MeshClearance(Clearance):
         return (nev, res)
 
 
+def mesh_contains(mesh, point):
+    """
+    Determines whether a point is inside a closed mesh.
+
+    Parameters
+    ----------
+    mesh : trimesh.Trimesh
+        A watertight mesh.
+    point : (3,) array of floats
+        The point of interest.
+
+    Returns
+    -------
+    bool
+        True if the solid angle of the mesh seen from the point is that of a
+        surface that encloses it.
+    """
+    a, b, c = np.moveaxis(np.array(mesh.triangles) - np.array(point), 1, 0)
+    la, lb, lc = (norm(v, axis=-1) for v in (a, b, c))
+    half_angles = np.arctan2(
+        np.sum(a * np.cross(b, c), axis=-1),
+        la * lb * lc
+        + np.sum(a * b, axis=-1) * lc
+        + np.sum(b * c, axis=-1) * la
+        + np.sum(c * a, axis=-1) * lb
+    )
+
+    return bool(abs(half_angles.sum()) > np.pi)
+
+
 def get_ref_sigma(sigma1, sigma2, sigma3, kop_index):
     sigma = np.column_stack([sigma1, sigma2, sigma3])
     sigma_diff = np.diff(sigma, axis=0)
-- 
2.43.0


From 798d8630867437a8918c78a5c83c0c173439e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 091/109] fix: MeshClearance gave negative separation factors
 of well bores end to end

---
 welleng/clearance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 498d7f6..4b5de07 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -1060,7 +1060,7 @@ class MeshClearance(Clearance):
                         sf = 0
                 else:
                     denom = distance_cc - distance[0]
-                    sf = distance_cc / denom if denom != 0 else np.inf
+                    sf = distance_cc / denom if denom > 0 else np.inf
 
                 # data for ISCWSA method comparison
                 # self.collision.append(collision)
-- 
2.43.0


From 291b323f82f7009a396b82368d48102eef898de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 092/109] fix: drop_off and extend_to_tvd set the depth of the
 caller's node

---
 welleng/connector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ac43797..d492b1f 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2615,7 +2615,7 @@ def drop_off(
         if the target inclination was achieved within the section.
     """
     node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.]) if node is None else node
-    node.md = 0 if node.md is None else node.md
+    md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
         delta_md = delta_md[0]
@@ -2636,7 +2636,7 @@ def drop_off(
         else delta_md - arc_length
     )
     node2 = Node(
-        pos=pos2, vec=vec2, md=node.md + arc_length
+        pos=pos2, vec=vec2, md=md + arc_length
     )
     if tangent_length > tol:
         pos3 = pos2 + tangent_length * vec2
@@ -2690,7 +2690,9 @@ def extend_to_tvd(
     """
     if node is None:
         node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
-    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
+    if node.md is None:  # default value is None which complicates things
+        node = copy(node)  # the node may belong to the caller
+        node.md = 0
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
     if target_inc is None:
-- 
2.43.0


From 0dd77fbe6ac2776f194d289ef0064ff754d04363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 093/109] fix: read OWSG headers whose gyro block is followed
 by empty cells

---
 welleng/errors/extract_owsg_codes_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/extract_owsg_codes_generic.py b/welleng/errors/extract_owsg_codes_generic.py
index 1c410d8..584c1d7 100644
--- a/welleng/errors/extract_owsg_codes_generic.py
+++ b/welleng/errors/extract_owsg_codes_generic.py
@@ -65,7 +65,7 @@ def extract_header(worksheet):
         values_only=True
     ):
         if tag:
-            if row[0][0] == " ":
+            if row[0] is not None and row[0][0] == " ":
                 if 'deg' in row[1]:
                     value = radians(float(row[1].split(" ")[0]))
                 else:
-- 
2.43.0


From 2d0047fc6aa6a680e301084720f59314d3313d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 094/109] fix: a term that evaluates to nan doesn't match the
 Copsegrove sigmas

---
 welleng/errors/copsegrove_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/copsegrove_validate.py b/welleng/errors/copsegrove_validate.py
index 85687aa..05a01cc 100644
--- a/welleng/errors/copsegrove_validate.py
+++ b/welleng/errors/copsegrove_validate.py
@@ -177,7 +177,7 @@ def validate_random_terms(
             ))
             continue
 
-        max_abs = max(diffs)
+        max_abs = float(np.max(diffs))    # nan if any difference is
         max_rel = max(rel_diffs) if rel_diffs else float("nan")
         if max_abs <= abs_tol:
             verdict = "MATCH"
-- 
2.43.0


From ab5e557d93ed82fdc15e0425fea030c132780f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 095/109] fix: ISCWSA validation fails a value where zero is
 expected

---
 welleng/errors/iscwsa_validate.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/iscwsa_validate.py b/welleng/errors/iscwsa_validate.py
index 016cd50..8d6af2e 100644
--- a/welleng/errors/iscwsa_validate.py
+++ b/welleng/errors/iscwsa_validate.py
@@ -144,6 +144,21 @@ def _relative_error(expected: np.ndarray, actual: np.ndarray) -> float:
     return float(np.max(np.abs(actual[mask] - expected[mask]) / denom[mask]))
 
 
+def _agrees(
+    expected: np.ndarray, actual: np.ndarray,
+    tolerance_rel: float, tolerance_abs: float,
+) -> bool:
+    """Whether each component is within the absolute or relative tolerance.
+
+    The relative error has no meaning where zero is expected, so there only
+    the absolute tolerance applies.
+    """
+    diff = np.abs(actual - expected)
+    return bool(np.all(
+        (diff <= tolerance_abs) | (diff <= tolerance_rel * np.abs(expected))
+    ))
+
+
 def validate_workbook(
     path: str | Path,
     error_model: str,
@@ -183,7 +198,7 @@ def validate_workbook(
         target = row.calculated
         abs_err = float(np.max(np.abs(packed - target)))
         rel_err = _relative_error(target, packed)
-        ok = abs_err <= tolerance_abs or rel_err <= tolerance_rel
+        ok = _agrees(target, packed, tolerance_rel, tolerance_abs)
         per_source.append(
             SourceCompare(
                 code=row.source,
@@ -207,7 +222,7 @@ def validate_workbook(
         ])
         abs_err = float(np.max(np.abs(we_row - wb_row)))
         rel_err = _relative_error(wb_row, we_row)
-        ok = abs_err <= tolerance_abs or rel_err <= tolerance_rel
+        ok = _agrees(wb_row, we_row, tolerance_rel, tolerance_abs)
         totals.append(TotalsCompare(
             md=float(md) * md_scale, workbook=wb_row, welleng=we_row,
             max_abs_err=abs_err, max_rel_err=rel_err, ok=ok,
-- 
2.43.0


From e5ed42430494c21f431d926eff8fba0e5f277345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 096/109] fix: torque and drag figures use a torque unit that
 pint knows

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index fba4593..5429d40 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -568,7 +568,7 @@ def figure_string_tension_and_torque(
     for k, v, in td.torque.items():
         fig.add_trace(
             go.Scatter(
-                x=((v * ureg('Nm')).to(units['torque'])).m,
+                x=((v * ureg('N*m')).to(units['torque'])).m,
                 y=((td.survey.md * ureg.meters).to(units['depth'])).m,
                 name=f"torque: {k}",
             ),
-- 
2.43.0


From 72df40b6befeb3c8cd657add720355a1b62f9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 097/109] fix: hook load figures of more than four friction
 factors

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 5429d40..210aadd 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -639,7 +639,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"SOFF: {k:.2f}",
-                line=dict(color='blue', dash=lines[i])
+                line=dict(color='blue', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
@@ -672,7 +672,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"PUFF: {k:.2f}",
-                line=dict(color='red', dash=lines[i])
+                line=dict(color='red', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
-- 
2.43.0


From 7a9defae85e23aac2ffaa57185777a6c614320e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 098/109] fix: mesh figures have the vertices of the end caps

---
 welleng/visual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/visual.py b/welleng/visual.py
index 17b45ca..853b1a9 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -479,8 +479,8 @@ def _scatter3d(survey, **kwargs):
 
 def _mesh3d(mesh, **kwargs):
     fig = go.Figure()
-    vertices = mesh.vertices.reshape(-1, 3)
-    faces = np.array(mesh.faces)
+    vertices = np.asarray(mesh.mesh.vertices)
+    faces = np.array(mesh.mesh.faces)
     n, e, v = vertices.T
     i, j, k = faces.T
     fig.add_trace(go.Mesh3d(x=e, y=n, z=v, i=i, j=j, k=k))
-- 
2.43.0


From ee44a676291322dce7a7eb8b6b4cbcd1e459cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 099/109] fix: the orientation of a target is about the
 vertical axis

---
 welleng/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/target.py b/welleng/target.py
index ba622b3..e8af3b9 100644
--- a/welleng/target.py
+++ b/welleng/target.py
@@ -144,6 +144,6 @@ class Target:
             g.flag = self.name
             g.pos=[self.n, self.e, 0]
             g.rotate(self.dip, point=pos, axis=(0,1,0))
-            g.rotate(self.orientation, point=pos, axis=(1,0,0))
+            g.rotate(self.orientation, point=pos, axis=(0,0,1))
 
         return g
-- 
2.43.0


From 8e6b2df3cf7baf203c43d1fc73f0954d88661671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 100/109] fix: hook load figures of strings added top down

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 210aadd..607b4e8 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -708,7 +708,7 @@ def figure_hookload(
         else:
             title_text += (
                 f" {coupler}{v['name']}"
-                + f" ({((v['length'] * ureg.meters).to(units['depth'])).m:.0f}"
+                + f" ({(((v['bottom'] - v['top']) * ureg.meters).to(units['depth'])).m:.0f}"
                 + f"{units['depth']})"
             )
 
-- 
2.43.0


From 317ce036a07ca5cabc711548311eec761bea216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 101/109] fix: curvature circles are centred with the radius of
 their own interval

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 7fc8871..6465baa 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2139,7 +2139,7 @@ def get_circle_radius(survey, **targets):
     cc1 = (
         nev[:-1] - b1
         / np.linalg.norm(b1, axis=1).reshape(-1, 1)
-        * survey.curve_radius[:-1].reshape(-1, 1)
+        * survey.curve_radius[1:].reshape(-1, 1)
     )
     cc2 = (
         nev[1:] - b2
-- 
2.43.0


From cc4c7bf92ac8d98aa5d1bb34730e7e8af8b50a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 102/109] fix: constants of formulas are real numbers, not text
 or unbounded integers

---
 welleng/errors/interpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index 062d805..193519e 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -92,6 +92,11 @@ def _validate(tree: ast.AST) -> None:
                 raise ValueError("only direct function calls allowed")
             if node.func.id not in _ALLOWED_FUNCS:
                 raise ValueError(f"function {node.func.id!r} not whitelisted")
+        if isinstance(node, ast.Constant):
+            if type(node.value) not in (int, float):
+                raise ValueError("only numbers are allowed as constants")
+            # a power of integers is exact, however long that takes
+            node.value = float(node.value)
         if isinstance(node, ast.Name) and node.id == "__builtins__":
             raise ValueError("__builtins__ access forbidden")
 
-- 
2.43.0


From a4145f6671c4563fd63d22050d150d37208e7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 103/109] fix: a header keeps the survey date it's given when
 magnetic values can't be looked up for it

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 6465baa..f77fdf9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -434,7 +434,7 @@ class SurveyHeader:
                         latitude=self.latitude,
                         longitude=self.longitude,
                         altitude=self.altitude,
-                        date=self._get_date(date=None)
+                        date=datetime.today().strftime('%Y-%m-%d')
                     )
                 except:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
                     # TODO: log when no internet connection prvents updating the result var
-- 
2.43.0


From 3f266bc4f1053e30710f4a65189d18a87e9cc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 104/109] fix: connect_points keeps the start direction when
 the points are integers

---
 welleng/connector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index d492b1f..b423a75 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2423,11 +2423,11 @@ def connect_points(
     """
     if nev:
         pos_nev = np.array(cartesians).reshape(-1, 3)
-        vec_nev = np.zeros_like(pos_nev)
+        vec_nev = np.zeros_like(pos_nev, dtype=float)
         vec_nev[0] = np.array(vec_start).reshape(-1, 3)
     else:
         pos_nev = get_nev(cartesians)
-        vec_nev = np.zeros_like(pos_nev)
+        vec_nev = np.zeros_like(pos_nev, dtype=float)
         vec_nev[0] = get_nev(vec_start)
 
     if np.ndim(dls_design) == 0:
-- 
2.43.0


From fc01c15d0aac0126d0777e9b22a75b9dfd119a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 105/109] fix: a survey's covariances may be lists or integers,
 as documented

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f77fdf9..90fd718 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -754,8 +754,12 @@ class Survey:
             assert error_model in error_models, "Unrecognized error model"
         self.error_model = error_model
 
-        self.cov_hla = cov_hla
-        self.cov_nev = cov_nev
+        self.cov_hla = (
+            None if cov_hla is None else np.asarray(cov_hla, dtype=float)
+        )
+        self.cov_nev = (
+            None if cov_nev is None else np.asarray(cov_nev, dtype=float)
+        )
         self.cov_nev_random = None
         self.cov_nev_systematic = None
         self.cov_nev_global = None
-- 
2.43.0


From b98d05661cc3a5eb1d8cf053289e20b0f0773537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:22 +0000
Subject: [PATCH 106/109] fix: connecting to a target straight ahead could fail
 on a stale check

---
 welleng/connector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index b423a75..b1a5820 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -707,7 +707,7 @@ class Connector:
         )
         if radius_temp > radius:
             radius_temp = radius
-            assert self.radius_critical > 0
+            assert radius_temp > 0
 
         (
             tangent_length,
-- 
2.43.0


From 03b4419567d2e5320a4abd5427fc3f88714ede08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:16 +0000
Subject: [PATCH 107/109] fix: clearance missed closest points away from the
 offset's nearest station

---
 welleng/clearance.py | 75 ++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 4b5de07..f898d8b 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -436,18 +436,15 @@ class IscwsaClearance(Clearance):
         ).reshape(3, 3)
         ref_r = self.Rr[ii + 1]
 
-        # Find closest point on offset in the two intervals around the nearest
-        # station (which isn't always that of the reference station)
+        # Find closest point on offset
         off_cov_src = self.offset.cov_nev
-        off_idx = np.argmin(norm(self.offset_nevs - ref_pos, axis=-1))
-        n_off = len(self.offset.md)
 
         best_dist = np.inf
         best_u = None
         best_off_cov = None
         best_off_r = None
 
-        for oi in range(max(0, off_idx - 1), min(off_idx + 1, n_off - 2) + 1):
+        for oi in self._get_intervals(ref_pos):
             bound = self.offset.md[oi + 1] - self.offset.md[oi]
             # not Powell, which fails for wells that coincide
             res = optimize.minimize_scalar(
@@ -629,38 +626,23 @@ class IscwsaClearance(Clearance):
         reference well.
         """
         closest = []
-        for j, (i, station) in enumerate(zip(
-            self.idx, self.ref_nevs.tolist()
-        )):
-            if i > 0:
-                bnds = [(0, self.offset.md[i] - self.offset.md[i - 1])]
-                res_1 = self._minimize_fun(bnds[0], i - 1, station)
-                mult = res_1.x[0] / (bnds[0][1] - bnds[0][0])
-                sigma_new_1 = self._interpolate_covs(i, mult)
-            else:
-                res_1 = False
-
-            if i < len(self.offset_nevs) - 1:
-                bnds = [(0, self.offset.md[i + 1] - self.offset.md[i])]
-                res_2 = self._minimize_fun(bnds[0], i, station)
-                mult = res_2.x[0] / (bnds[0][1] - bnds[0][0])
-                sigma_new_2 = self._interpolate_covs(i + 1, mult)
-            else:
-                res_2 = False
-
-            if res_1 and res_2 and res_1.fun < res_2.fun or not res_2:
-                closest.append((
-                    station,
-                    _interpolate_survey(self.offset, res_1.x[0], i - 1),
-                    res_1, sigma_new_1
-                ))
-            else:
-                closest.append((
-                    station,
-                    _interpolate_survey(self.offset, res_2.x[0], i),
-                    res_2,
-                    sigma_new_2
-                ))
+        for k, station in enumerate(self.ref_nevs.tolist()):
+            best = None
+            for j in self._get_intervals(station):
+                bound = self.offset.md[j + 1] - self.offset.md[j]
+                res = self._minimize_fun((0, bound), j, station)
+                if best is None or res.fun <= best[0].fun:
+                    best = (res, j, bound)
+            res, j, bound = best
+            if self.idx[k] not in (j, j + 1):
+                # the hole is that at the closest point
+                self.idx[k] = j if res.x[0] < bound / 2 else j + 1
+            closest.append((
+                station,
+                _interpolate_survey(self.offset, res.x[0], j),
+                res,
+                self._interpolate_covs(j + 1, res.x[0] / bound)
+            ))
 
         self.closest = closest
         md, inc, azi, n, e, tvd, x, y, z,  = np.array([
@@ -709,6 +691,25 @@ class IscwsaClearance(Clearance):
             unit=self.offset.unit
         )
 
+    def _get_intervals(self, pos):
+        """
+        The indices of the intervals of the offset well that may hold its
+        closest point to a position, which aren't always those at the closest
+        station.
+        """
+        start, chord = self.offset_nevs[:-1], np.diff(self.offset_nevs, axis=0)
+        squared = np.maximum(np.sum(chord ** 2, axis=-1), 1e-12)
+        along = np.sum((pos - start) * chord, axis=-1) / squared
+        distance = norm(
+            start + np.clip(along, 0, 1)[:, None] * chord - pos, axis=-1
+        )
+        # the arcs are no further than this from their chords
+        rise = np.sqrt(squared) / 2 * np.tan(self.offset.dogleg[1:] / 4)
+
+        return np.flatnonzero(
+            distance - rise <= np.amin(distance + rise) + 1e-6
+        )
+
     def _minimize_fun(self, bounds, index, station):
         """
         Finds the closest point to the station between a pair of offset well
-- 
2.43.0


From 3ccf56bb7cd30fa6a0df20f95e1138049eebf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:16 +0000
Subject: [PATCH 108/109] fix: the surface margin was left out when looking for
 the least separation factor

---
 welleng/clearance.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index f898d8b..46c0c4f 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -474,8 +474,7 @@ class IscwsaClearance(Clearance):
         off_pcr = np.sqrt(max(0.0, float(u @ best_off_cov @ u)))
         sigma_s = np.sqrt(ref_pcr ** 2 + off_pcr ** 2)
         eou = self.k * np.sqrt(sigma_s ** 2 + self.sigma_pa ** 2)
-        # Sm=0.0 matches the original (using Sm=0 for min-finding)
-        return float((dist - ref_r - best_off_r) / eou)
+        return float((dist - ref_r - best_off_r - self.Sm) / eou)
 
     def get_sf_mins(self):
         """
-- 
2.43.0


From b954ccc1547130f7ca03771e99092d41f90a8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:16 +0000
Subject: [PATCH 109/109] fix: the search for the least separation factor stuck
 at plateaus beyond the station

---
 welleng/clearance.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 46c0c4f..a27f693 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -492,34 +492,27 @@ class IscwsaClearance(Clearance):
 
         for minima in minimas[0].tolist():
             delta_md = self.ref.delta_md[minima: minima + 2]
-            bounds = [[-delta_md[0], delta_md[1]]]
-            # x0 = (np.diff(bounds) / 2)
-            x0 = [0]
-            args = (minima, delta_md)
-            # options = {
-            #     'eps': np.sum(delta_md) / 10
-            # }
-
-            # SLSQP and L-BFGS-B don't work when using neg to pos ranges in
-            # this example, but Powell seems to do the job.
-            result = optimize.minimize(
-                self._get_sf_min,
-                x0,
-                method='Powell',
-                bounds=bounds,
-                args=args,
+            # either side of the station, as the uncertainty and the well's
+            # curvature change at it
+            result = min(
+                (
+                    optimize.minimize_scalar(
+                        self._get_sf_min,
+                        bounds=bounds,
+                        method='bounded',
+                        args=(minima, delta_md),
+                    )
+                    for bounds in ((-delta_md[0], 0), (0, delta_md[1]))
+                ),
+                key=lambda result: result.fun
             )
 
-            if any((
-                result.x == 0,
-                result.x in delta_md
-            )):
+            if result.fun > self.sf[minima] - 1e-6:
                 continue
 
-            else:
-                sf_interpolated.append((
-                    self.ref.md[minima] + result.x[0], result.fun
-                ))
+            sf_interpolated.append((
+                self.ref.md[minima] + result.x, result.fun
+            ))
 
         if bool(sf_interpolated):
             for md, sf in sf_interpolated:
-- 
2.43.0

