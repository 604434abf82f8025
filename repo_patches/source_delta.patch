From 8c563ded2e5d3544fd40c63e69d45d9aca5b144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 01/33] fix: raise AttributeError for missing attributes of
 Scenario and Coefficients

__getattr__ raised KeyError, which breaks hasattr(), copy.deepcopy() and pickle.
---
 src/pygmm/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..cdb8b16 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,7 +126,13 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        # Guard `data` to prevent recursion before the instance is initialized
+        if item == "data":
+            raise AttributeError(item)
+        try:
+            return self.data[item]
+        except KeyError:
+            raise AttributeError(item) from None
 
     def __repr__(self):
         """Representation."""
@@ -548,7 +554,13 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        # Guard `_data` to prevent recursion before the instance is initialized
+        if key == "_data":
+            raise AttributeError(key)
+        try:
+            return self._data[key]
+        except KeyError:
+            raise AttributeError(key) from None
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From 0cb1af20741c75927efe9c77525ee409f106a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 02/33] fix: Scenario repr without mag or dist_jb

repr() raised KeyError for a scenario that does not define both keys.
---
 src/pygmm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index cdb8b16..58d34ad 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -136,7 +136,7 @@ class Scenario(collections.UserDict):
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return f"<Scenario(mag={self.get('mag')}, dist_jb={self.get('dist_jb')})>"
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From 31ee2e01eb04eaab2977a5aeacd6b393369725cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 03/33] fix: report the limit in the NumericParameter warnings

The second half of the message was not an f-string and printed the literal
{self.min} or {self.max}.
---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 58d34ad..f2aeca1 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -463,14 +463,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From de0e73e49b2c287a4a9151395825d31226aa6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/33] fix: apply the China anelastic attenuation in CB14

The region string was compared with a list, so dc_20ch was never used.
---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..cae82c7 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region in ["china"]:
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From 8be8764e72bfdc2f9095107f358b5fd8d37ccf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 05/33] fix: store the values estimated by CB14 in the scenario

The estimates were set as instance attributes which left scenario[key] as None.
---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index cae82c7..b73db43 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From 270cb7d0d6d986099d933b81814c14afbdf8d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 06/33] fix: pass the region to the BSSA14 site term

depth_1_0 was passed as the region, so the basin model of Japan was never used.
---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..e9a0f04 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -205,7 +205,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         else:
             # Compute the site term
             site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
+                pga_ref, s.v_s30, s.depth_1_0, s.region
             )
 
         ln_resp = event + path + site
-- 
2.43.0


From 9e601bc4f61e91d65b097cc89002a58455a191e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 07/33] fix: AB06 nonlinear slope between 180 and 300 m/s

Equation 8b of Atkinson and Boore (2006) includes + b_2; without it the site
term is discontinuous at both velocities.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From 9c2b8a5006d5157d49b2f40af98aab7327524218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 08/33] fix: units of PGV and PGD computed by AB06

The conversion from cm/sec/sec to g was also applied to PGV (cm/sec) and PGD (cm).
---
 src/pygmm/atkinson_boore_2006.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..8637158 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -39,6 +39,10 @@ class AtkinsonBoore2006(model.GroundMotionModel):
     INDEX_PGA = 2
     INDICES_PSA = np.arange(3, 27)
 
+    # The response is divided by gravity, which does not apply to PGV and PGD
+    PGV_SCALE = 980.665
+    PGD_SCALE = 980.665
+
     PARAMS = [
         model.NumericParameter("mag", True),
         model.NumericParameter("dist_rup", True),
-- 
2.43.0


From 8953a6dd5f9acdca82fbfe91495f31983947ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 09/33] fix: GA11 interp_ln_std returned the exponent of the
 standard deviation

---
 src/pygmm/gulerce_abrahamson_2011.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..d07eb97 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -90,9 +90,9 @@ class GulerceAbrahamson2011(model.Model):
         )
 
     def interp_ln_std(self, periods: ArrayLike) -> np.ndarray:
-        """Interpolate the spectral ratio.
+        """Interpolate the logarithmic standard deviation.
 
-        Interpolation of the spectral ratio done in log-period space.
+        Interpolation of the standard deviation done in log-period space.
 
         Parameters
         ----------
@@ -101,17 +101,15 @@ class GulerceAbrahamson2011(model.Model):
 
         Returns
         -------
-        ratio : np.ndarray
-            interpolated ratio
+        ln_std : np.ndarray
+            interpolated logarithmic standard deviation
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From c4248ebf085563aa55689a458aa00c2b3f627f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 10/33] fix: AS96 does not modify the normalized Arias
 intensities of the caller

np.asarray does not copy an array, so that NaN was written into it, and NaN
could not be written into integers.
---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0d4f2a0 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From 2eb4f0f1715d8327814f305970f0d12eb1ed16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 11/33] fix: AS96 interp applied the duration increment twice

The median differed by 0.86% from the reference spreadsheet and from the
duration property.
---
 src/pygmm/abrahamson_silva_1996.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 0d4f2a0..473e08d 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -70,7 +70,10 @@ class AbrahamsonSilva1996(model.Model):
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-        ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
+        # The duration already includes the increment for D5-75
+        ln_dur = (
+            self._ln_dur - self.calc_ln_dur_incr(0.75) + self.calc_ln_dur_incr(nias)
+        )
 
         if stds is not None:
             std_errs = np.interp(
-- 
2.43.0


From 1d035e1f264c23c849ebd8ff0f2d4d10cea83eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 12/33] fix: units of the differential depth in AS16

The basin coefficients and the limit of 200 are for a depth in meters.
---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..7a8210b 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Convert the differential depth from km to m
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From 4e5b2251c4935650baf53fcf495de2ccfeb6c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 13/33] fix: BA18 accepts any array_like frequencies

---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..f36796c 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -40,6 +40,7 @@ class BaylessAbrahamson2018:
         """
 
         # Create two matrices of frequencies
+        freqs = np.asarray(freqs)
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
         freqs_col = freqs_row.T
-- 
2.43.0


From e224efbf6369f2a2744a6cbd347421fba9b44e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 14/33] fix: magnitude dependence of the BA19 standard
 deviation

np.clip returns the upper bound when the lower bound is greater, so that the
standard deviations that decrease with magnitude used the value for M6 for
all magnitudes.
---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From 430b034b017bbab5ceb877014a0b110a2b0cbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 15/33] fix: sign of the within-event decay in Stafford (2017)

The correlation increased with the separation of the frequencies and exceeded
one. With the sign corrected the model follows the published correlations in
tests/data/PJS2017_cor_M4pt5_fmin0pt06.csv.
---
 src/pygmm/stafford_2017.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..efca416 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -179,7 +179,8 @@ class Stafford2017:
         gamma_A = cls.compute_gamma_A(f_min)
 
         # Base correlation (equation 14)
-        rho_A0 = (1 - eta_A) * np.exp(gamma_A * np.log(f_max / f_min))
+        # The coefficients of gamma_A define a positive decay
+        rho_A0 = (1 - eta_A) * np.exp(-gamma_A * np.log(f_max / f_min))
 
         # Full correlation including nugget effect (equation 15)
         if np.isclose(f_i, f_j):
-- 
2.43.0


From 6e7b00d3d02438dda9dacfe217688986af862989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 16/33] fix: nugget effect in Stafford (2017)

The correlation tended to zero instead of one as the frequencies approached each
other.
---
 src/pygmm/stafford_2017.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index efca416..31d9be0 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -186,7 +186,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_A = 1 - (1 - rho_A0) * (1 - nugget)
             return rho_A
 
     @classmethod
@@ -209,7 +210,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_S = 1 - (1 - rho_S0) * (1 - nugget)
             return rho_S
 
     @classmethod
-- 
2.43.0


From bfadbb73aee62bdfdc5eb19f13b96cd8429c9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 17/33] fix: between-event correlation in Stafford (2017)

The frequency was normalized by the corner frequency twice, and the exponent was
multiplied by the normalized frequency, which differs from the published
correlations by up to 0.3.
---
 src/pygmm/stafford_2017.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 31d9be0..518e9e0 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -157,11 +157,11 @@ class Stafford2017:
         f_min_norm = f_min / fc
         f_max_norm = f_max / fc
 
-        # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        # Compute gamma_E, which normalizes the frequency
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max_norm / f_min_norm))
 
         return correlation
 
-- 
2.43.0


From 2c640959e30c132a574db2b444ee15db13f1322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 18/33] fix: Stafford (2017) keeps the standard deviations that
 are provided

All three were replaced by the model if any of them was not provided.
---
 src/pygmm/stafford_2017.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 518e9e0..9672815 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -295,7 +295,11 @@ class Stafford2017:
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
             # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            computed = cls.compute_variances(freqs)
+            sigma_E, sigma_S, sigma_A = (
+                c if s is None else s
+                for s, c in zip((sigma_E, sigma_S, sigma_A), computed)
+            )
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From 940d6d9f54e609bbeb5f9b14e9e99e5852a4e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 19/33] fix: BA19 standard deviation above 24 Hz was NaN

---
 src/pygmm/bayless_abrahamson_2019.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..5ee2347 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -177,7 +177,10 @@ class BaylessAbrahamson2019(model.Model):
         phi_s2s = interp(c.s3, c.s4)
         phi_ss = interp(c.s5, c.s6)
 
-        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c.c1a**2)
+        # c1a is not defined beyond the usable frequency range, where it is zero
+        c1a = np.nan_to_num(c.c1a)
+
+        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c1a**2)
         return ln_std
 
     @staticmethod
-- 
2.43.0


From b32eb3062bdc2dc0c3c7b7706dccca3ed7539548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 20/33] fix: BA19 and GA11 return copies of the model arrays

Modifying a returned array changed the model, and with BaylessAbrahamson2019.freqs
the coefficients of all models in the process.
---
 src/pygmm/bayless_abrahamson_2019.py | 6 +++---
 src/pygmm/gulerce_abrahamson_2011.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 5ee2347..7df1cd3 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,11 +56,11 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        return self.FREQS.copy()
 
     @property
     def ln_eas(self):
-        return self._ln_eas
+        return self._ln_eas.copy()
 
     @property
     def eas(self):
@@ -68,7 +68,7 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return self._ln_std.copy()
 
     def _check_inputs(self) -> None:
         super()._check_inputs()
diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index d07eb97..c0f4da6 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -62,7 +62,7 @@ class GulerceAbrahamson2011(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return self._ln_std.copy()
 
     def interp_ratio(self, periods: ArrayLike) -> np.ndarray:
         """Interpolate the spectral ratio.
-- 
2.43.0


From 3911dbfc8a078133ff3b9ebf71ba2b726cee45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 21/33] fix: AGA16 copies the c1 adjustments

The array of the caller was stored in the model and returned by adjust_c1.
---
 src/pygmm/abrahamson_gregor_addo_2016.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..8305dee 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.asarray(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
@@ -88,7 +88,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
 
     @property
     def adjust_c1(self):
-        return self._adjust_c1
+        return self._adjust_c1.copy()
 
     @property
     def adjust_c4(self):
-- 
2.43.0


From 89794fbb351685c506cbc2787de212881d2430cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 22/33] fix: AbrahamsonBhasin2020 could not be created

The optional arguments defaulted to a type, coefficients were referenced by names
that are not defined, and __init__ returned a value.
---
 src/pygmm/abrahamson_bhasin_2020.py | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/pygmm/abrahamson_bhasin_2020.py b/src/pygmm/abrahamson_bhasin_2020.py
index 1b56c98..451941d 100644
--- a/src/pygmm/abrahamson_bhasin_2020.py
+++ b/src/pygmm/abrahamson_bhasin_2020.py
@@ -85,9 +85,9 @@ class AbrahamsonBhasin2020(model.Model):
     def __init__(
         self,
         scenario: model.Scenario,
-        psa=Optional[float],
-        pga=Optional[float],
-        psa_1s=Optional[float],
+        psa: Optional[float] = None,
+        pga: Optional[float] = None,
+        psa_1s: Optional[float] = None,
     ):
         super().__init__(scenario)
 
@@ -103,7 +103,7 @@ class AbrahamsonBhasin2020(model.Model):
             ln_gm = np.log(psa_1s)
 
         C = self.COEFFS[method]
-        s = scenario
+        s = self._scenario
 
         # Mean
         if s.mag < 5:
@@ -113,13 +113,13 @@ class AbrahamsonBhasin2020(model.Model):
         else:
             f_1 = C.a_2 + (C.a_3 - C.a_2) * (s.mag - 5) / 2.5
 
-        ln_mean = (
+        self._ln_pgv = (
             C.a_1
             + f_1 * ln_gm
             + C.a_4 * (s.mag - 6)
             + C.a_5 * (8.5 - s.mag) ** 2
             + C.a_6 * np.log(s.dist_rup + 5 * np.exp(0.4 * (s.mag - 6)))
-            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(C.v_s30 / self.V_REF)
+            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(s.v_s30 / self.V_REF)
         )
 
         if method == "psa(T=Tpgv)":
@@ -127,21 +127,28 @@ class AbrahamsonBhasin2020(model.Model):
         else:
 
             def interp(var_1, var_2):
-                if s.mag < C.mag_1:
+                if s.mag < C.M_1:
                     val = var_1
-                elif s.mag > C.mag_2:
+                elif s.mag > C.M_2:
                     val = var_2
                 else:
-                    val = var_1 + (var_2 - var_1) * (s.mag - C.mag_1) / (
-                        C.mag_2 - C.mag_1
-                    )
+                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                 return val
 
             phi = interp(C.phi_1, C.phi_2)
             tau = interp(C.tau_1, C.tau_2)
 
-        ln_std = np.sqrt(phi**2 + tau**2)
-        return ln_mean, ln_std
+        self._ln_std = np.sqrt(phi**2 + tau**2)
+
+    @property
+    def pgv(self) -> float:
+        """Peak ground velocity (PGV) computed by the model (cm/sec)."""
+        return np.exp(self._ln_pgv)
+
+    @property
+    def ln_std(self) -> float:
+        """Logarithmic standard deviation of the PGV."""
+        return self._ln_std
 
     @classmethod
     def ln_period_pgv(cls, mag: float) -> float:
-- 
2.43.0


From e23ffdae6456f0552caee32fd6dc4f10ee9392d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 23/33] fix: PR24 duration_model evaluates all values of
 array_like inputs

Only the first element of each array was used.
---
 src/pygmm/pinilla_ramos_et_al_2024.py | 47 ++++++++++++++-------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..64241ca 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -789,31 +789,34 @@ def duration_model(
     from .model import Scenario
 
     # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
-    )
-    model_inst = PinillaRamosEtAl2024(scenario)
-
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    arrays = np.broadcast_arrays(*np.atleast_1d(mag, rrup, vs30))
+
+    results = []
+    for mag_i, rrup_i, vs30_i in zip(*arrays):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=mag_i,
+            dist_rup=rrup_i,
+            v_s30=vs30_i,
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            results.append(
+                (
+                    model_inst.duration,
+                    model_inst.duration_plus_sigma,
+                    model_inst.duration_minus_sigma,
+                )
+            )
+        else:
+            results.append(model_inst.duration_for_energy(energy))
 
     # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    duration, plus_sigma, minus_sigma = np.array(results).T
+    return duration, plus_sigma, minus_sigma
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 095530ed93faed404f7f1da4596f707f3d922c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 24/33] fix: TP05 standard deviation at 0.5 sec

c_15 of -0.173 is out of line with the adjacent periods (-0.109 and -0.105),
gives a standard deviation of 0.03 for M7.2, and is inconsistent with c_16, which
requires -0.107.
---
 src/pygmm/data/tavakoli_pezeshk_2005.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/data/tavakoli_pezeshk_2005.csv b/src/pygmm/data/tavakoli_pezeshk_2005.csv
index 241e7cb..cf4affb 100644
--- a/src/pygmm/data/tavakoli_pezeshk_2005.csv
+++ b/src/pygmm/data/tavakoli_pezeshk_2005.csv
@@ -7,7 +7,7 @@
 0.15,2.38E+00,5.01E-01,-6.42E-02,-1.73E+00,-9.76E-01,4.14E-01,6.60E-03,-4.80E-03,3.93E-03,1.51E+00,-8.65E-01,3.64E-04,6.84E-04,1.24E+00,-1.08E-01,0.464
 0.2,-5.48E-01,8.57E-01,-2.62E-02,-1.68E+00,-8.61E-01,4.33E-01,2.79E-03,-3.65E-03,-2.02E-03,1.64E+00,-9.25E-01,1.61E-04,6.43E-04,1.24E+00,-1.08E-01,0.469
 0.3,-5.13E-01,6.67E-01,-4.43E-02,-1.42E+00,-4.70E-01,4.68E-01,1.08E-02,-5.41E-03,6.44E-03,1.52E+00,-9.15E-01,4.32E-04,2.87E-04,1.26E+00,-1.09E-01,0.479
-0.5,2.40E-01,6.11E-01,-7.89E-02,-1.55E+00,-8.44E-01,4.14E-01,7.89E-03,-3.65E-03,-2.65E-04,1.59E+00,-8.59E-01,2.77E-04,1.46E-04,1.28E+00,-1.73E-01,0.505
+0.5,2.40E-01,6.11E-01,-7.89E-02,-1.55E+00,-8.44E-01,4.14E-01,7.89E-03,-3.65E-03,-2.65E-04,1.59E+00,-8.59E-01,2.77E-04,1.46E-04,1.28E+00,-1.07E-01,0.505
 0.75,-6.79E-01,6.66E-01,-8.30E-02,-1.48E+00,-7.34E-01,4.35E-01,9.53E-03,-3.37E-03,-1.19E-03,1.55E+00,-7.84E-01,2.45E-04,5.47E-04,1.28E+00,-1.05E-01,0.522
 1,-1.55E+00,7.64E-01,-8.59E-02,-1.49E+00,-9.41E-01,4.24E-01,-5.84E-03,-2.09E-03,3.30E-03,1.52E+00,-7.57E-01,1.17E-04,7.59E-04,1.28E+00,-1.03E-01,0.537
 1.5,-2.30E+00,7.94E-01,-8.84E-02,-1.45E+00,-8.86E-01,4.12E-01,8.30E-03,-3.27E-03,2.51E-03,1.71E+00,-7.69E-01,2.33E-04,1.66E-04,1.27E+00,-9.99E-02,0.551
-- 
2.43.0


From cf4c5e2cd849b566f60b83f71c44f80faadc71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 25/33] fix: PR23 durations of energies closest to D5-75 were
 doubled

---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From 27bc4d8e02a36953469a0de4222e92ad0776c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 26/33] fix: Kishida conditional spectrum with every period
 conditioned upon

---
 src/pygmm/kishida_2017.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..5081dd4 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,8 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    # Full mask, also if no value is masked
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From e97f24385ae07540f1557bf29230af8c772be260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 27/33] fix: CB14 short-period spectral accelerations are not
 less than the PGA

---
 src/pygmm/campbell_bozorgnia_2014.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index b73db43..e1a4045 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -105,6 +105,12 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         pga_ref = np.exp(self._calc_ln_resp(np.nan, self.V_REF)[self.INDEX_PGA])
         self._ln_resp = self._calc_ln_resp(pga_ref, self._scenario.v_s30)
+        # Short-period spectral accelerations are limited to be at least the PGA.
+        # Equation 1.
+        is_short = (0 < self.PERIODS) & (self.PERIODS < 0.25)
+        self._ln_resp[is_short] = np.maximum(
+            self._ln_resp[is_short], self._ln_resp[self.INDEX_PGA]
+        )
         self._ln_std, self._tau, self._phi = self._calc_ln_std(pga_ref)
 
     def _calc_ln_resp(self, pga_ref: float, v_s30: float) -> np.ndarray:
-- 
2.43.0


From 86666e557fec7f0639b7403357405851d473a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 28/33] fix: depth to 1.0 km/s of 32-bit integer velocities

The fourth power of the velocity overflowed.
---
 src/pygmm/abrahamson_silva_kamai_2014.py | 2 +-
 src/pygmm/afshari_stewart_2016.py        | 2 +-
 src/pygmm/bayless_abrahamson_2019.py     | 2 +-
 src/pygmm/chiou_youngs_2014.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 8c873fd..4c3be08 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -328,7 +328,7 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 610
             slope = -7.67 / power
 
diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 7a8210b..94de9cc 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -122,7 +122,7 @@ class AfshariStewart2016(model.Model):
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 7df1cd3..2922ba6 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -199,7 +199,7 @@ class BaylessAbrahamson2019(model.Model):
             depth to a shear-wave velocity of 1,000 m/sec
             (:math:`Z_{1.0}`, km).
         """
-        power = 4
+        power = 4.0
         v_ref = 610
         slope = -7.67 / power
         return (
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..dafbb19 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -312,7 +312,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
-- 
2.43.0


From 4ec6ec02ff155cde782eae1809b11061b4446796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 29/33] fix: close the data files that are read on import

---
 src/pygmm/derras_bard_cotton_2014.py | 12 +++++-------
 src/pygmm/stafford_2017.py           |  6 +++---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/derras_bard_cotton_2014.py b/src/pygmm/derras_bard_cotton_2014.py
index a062a29..7873930 100644
--- a/src/pygmm/derras_bard_cotton_2014.py
+++ b/src/pygmm/derras_bard_cotton_2014.py
@@ -1,7 +1,7 @@
 """Derras, Bard and Cotton (2014, :cite:`derras14`) model."""
 
 import json
-import os
+import pathlib
 
 import numpy as np
 
@@ -24,12 +24,10 @@ class DerrasBardCotton2014(model.GroundMotionModel):
     ABBREV = "DBC13"
 
     # Load the coefficients for the model
-    COEFF = json.load(
-        open(
-            os.path.join(
-                os.path.dirname(__file__), "data", "derras_bard_cotton_2014.json"
-            )
-        )
+    COEFF = json.loads(
+        (
+            pathlib.Path(__file__).parent / "data" / "derras_bard_cotton_2014.json"
+        ).read_text()
     )
     GRAVITY = 9.80665
     PERIODS = np.array(COEFF["period"])
diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 9672815..d175d4d 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -1,7 +1,7 @@
 """Stafford (2017, :cite:`safford2017`) correlation."""
 
 import json
-import os
+import pathlib
 
 import numpy as np
 import pandas as pd
@@ -22,8 +22,8 @@ class Stafford2017:
 
     # Load the coefficients for the model
     COEFF = pd.Series(
-        json.load(
-            open(os.path.join(os.path.dirname(__file__), "data", "stafford_2017.json"))
+        json.loads(
+            (pathlib.Path(__file__).parent / "data" / "stafford_2017.json").read_text()
         )
     )
 
-- 
2.43.0


From 21b78ab65c9830cf8aeef3e69c82f4c82aa417ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 30/33] fix: log with the package's loggers instead of the root
 logger

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 6 ++++--
 src/pygmm/campbell_bozorgnia_2014.py            | 4 +++-
 src/pygmm/chiou_youngs_2014.py                  | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index e9a0f04..406cbe3 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
     """Boore, Stewart, Seyhan, and Atkinson (2014, :cite:`boore14`) model.
@@ -132,7 +134,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         if s.mechanism == "SS":
             _min, _max = 3.0, 8.5
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a strike-slip earthquake!",
                     s.mag,
@@ -142,7 +144,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         elif s.mechanism == "NS":
             _min, _max = 3.0, 7.0
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a normal-slip earthquake!",
                     s.mag,
diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index e1a4045..3597f44 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class CampbellBozorgnia2014(model.GroundMotionModel):
     """Campbell and Bozorgnia (2014, :cite:`campbell14`) model.
@@ -69,7 +71,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         for mech, limit in [("SS", 8.5), ("RS", 8.0), ("NS", 7.5)]:
             if mech == s.mechanism and s.mag > limit:
-                logging.warning(
+                logger.warning(
                     "Magnitude of %g is greater than the recommended limit of"
                     "%g for %s style faults",
                     s.mag,
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index dafbb19..f011768 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -10,6 +10,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class ChiouYoungs2014(model.GroundMotionModel):
     """Chiou and Youngs (2014, :cite:`chiou14`) model.
@@ -271,7 +273,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
             _min, _max = 3.5, 8.5
 
         if not (_min <= s.mag <= _max):
-            logging.warning(
+            logger.warning(
                 "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                 " for a %s earthquake!",
                 s.mag,
-- 
2.43.0


From e5024e702b92a86c7f2683e1a40c977423ec453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:04 +0000
Subject: [PATCH 31/33] fix: numbers given as short or unsigned NumPy integers
 overflowed

---
 src/pygmm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index f2aeca1..becac25 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -459,6 +459,10 @@ class NumericParameter(Parameter):
     def check(self, value) -> float:
         """Check the value against the limits."""
         value = super().check(value)
+        if isinstance(value, np.number):
+            # NumPy integers may overflow, and are of little precision if short
+            value = value.item()
+
         if value is not None:
             if self.min is not None and value < self.min:
                 warnings.warn(
-- 
2.43.0


From a47b04802540c508845212c7c13d407835e7ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 32/33] fix: depths to 1.0 km/s for Japan overflowed for short
 integer velocities

---
 src/pygmm/abrahamson_silva_kamai_2014.py | 2 +-
 src/pygmm/afshari_stewart_2016.py        | 2 +-
 src/pygmm/chiou_youngs_2014.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 4c3be08..5ea15ba 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -323,7 +323,7 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412
             slope = -5.23 / power
         else:
diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 94de9cc..83c9d83 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -117,7 +117,7 @@ class AfshariStewart2016(model.Model):
     def calc_depth_1_0(v_s30: float, region: str = "california") -> float:
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index f011768..802b423 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -309,7 +309,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
-- 
2.43.0


From 961a7ebe1f861c382b5317084847f5dd3717b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:53 +0000
Subject: [PATCH 33/33] fix: numbers given with extended precision broke AB06

---
 src/pygmm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index becac25..bce87dc 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -462,6 +462,9 @@ class NumericParameter(Parameter):
         if isinstance(value, np.number):
             # NumPy integers may overflow, and are of little precision if short
             value = value.item()
+            if isinstance(value, np.longdouble):
+                # Extended precision stays a NumPy number
+                value = float(value)
 
         if value is not None:
             if self.min is not None and value < self.min:
-- 
2.43.0

