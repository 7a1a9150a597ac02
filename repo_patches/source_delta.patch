From d8e7c39f5fdf883129d28025c0356d4d9ae3a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 01/29] fix: use Taylor coefficients when extrapolating the
 spline

The k-th derivative at the end point was used as the k-th polynomial
coefficient without dividing by k!, so quadratic, cubic and spline
extrapolation did not continue the end pieces.
---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..0e52ab5 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -37,6 +37,7 @@ import hdf5storage as hdf
 import h5py
 import textwrap
 import datetime
+from math import factorial
 from timeit import default_timer as timer
 from . import coordinate_utils as cu
 from . import model_utils as mu
@@ -201,7 +202,7 @@ class Base(object):
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
                     for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
+                        bin[-1-k] = PP(x, nu=k) / factorial(k)
                     PP.extend(bin, np.array([x]))
 
             else:  # no extrapolation
-- 
2.43.0


From 3eab79ddc06f6d881c9360c5ac7a64199fea5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 02/29] fix: reshape 1-D frequency vectors in
 synth_rotate_gauss

The reshaped array was discarded, so the documented 1-D input either failed
to broadcast or was silently aligned with the last matrix dimension.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..0b1d176 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From a4c4e448669ea71139cce00b01d548096d21ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 03/29] fix: honour a NumPy False as scaled in
 synth_rotate_gauss

The flag loaded from an NPZ file is a 0-d array, which is never the object
False, so unscaled spectra were synthesized without the factor 2.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0b1d176..d31c81c 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From b589680d86664b59500497127be7e1f8836bb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 04/29] fix: reject colatitudes outside [0, 180] also if a pole
 is included

With one point exactly at a pole, any other out-of-range colatitude in the
same array was accepted.
---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..d7dc09d 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -501,7 +501,7 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta_max = np.amax(theta)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
@@ -790,7 +790,7 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
-- 
2.43.0


From eaf91fd633b9d517fd4012cb7e43f21361299547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 05/29] fix: enforce the lower bound of the years in
 sun_position

The sign error made the check pass for any time before 1901.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index d31c81c..5df8661 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -758,7 +758,7 @@ def sun_position(time):
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
-        and np.all((year - time // 365.25) > 1901), \
+        and np.all((year + time // 365.25) >= 1901), \
         ("Time must be between 1901 and 2099.")
 
     frac_day = np.remainder(time, 1)  # decimal fraction of a day
-- 
2.43.0


From a325358e8456a9f19444d1fb53d2205234a3bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 06/29] fix: restore the configuration if the context is left
 by an exception

---
 chaosmagpy/config_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..cb285d6 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,10 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 38137660497d7c1e64e8fd86df5e7ed9f155fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 07/29] fix: save the static field of models without
 time-dependent field

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 0e52ab5..820c61c 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2220,7 +2220,7 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            nmin = 1 if self.model_tdep is None else self.model_tdep.nmax + 1
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From 15df9da28c1ac4872113320660fcfab09d7a829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 08/29] fix: allow missing Euler prerotation angles in CHAOS
 models

load_CHAOS_matfile sets the angles to None if missing in the file, which
then raised a TypeError in the constructor.
---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 820c61c..c070ec0 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1010,7 +1010,7 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
+                except (KeyError, TypeError):
                     Euler_prerotation = None
 
                 model = Base(
-- 
2.43.0


From b21c8be254650e2106378dff97e2855c8d543473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 09/29] fix: no NaN zenith angle at the subsolar and antisolar
 points

Rounding can push the cosine slightly outside of [-1, 1].
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 5df8661..58d8045 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -824,7 +824,7 @@ def zenith_angle(time, theta, phi):
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
 
-    return np.degrees(np.arccos(cos_zeta))
+    return np.degrees(np.arccos(np.clip(cos_zeta, -1., 1.)))
 
 
 def spherical_to_cartesian(radius, theta, phi):
-- 
2.43.0


From 80887964d4e96e47c789b0a749bcab09c5fb8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 10/29] fix: do not extend the caller's list of satellites

---
 chaosmagpy/chaos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index c070ec0..14bcceb 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2595,6 +2595,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         if n < m:
             satellites = satellites[:n]
         elif n > m:
+            satellites = list(satellites)
             for counter in range(m+1, n+1):
                 satellites.append(f'satellite_{counter}')
 
-- 
2.43.0


From c945dfd1cd98c699015d4c505f5cefc1ebcbe131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 11/29] fix: do not overwrite zeros in the caller's spectrum
 when plotting

---
 chaosmagpy/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..f6d8261 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,8 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    # remove non-positive values for log
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0


From 29d335aae0d36ab54365c4c1f30f37d39f1a3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 12/29] fix: no NaN geodetic height and colatitude near the
 poles

The argument of the root is zero on the rotation axis and could turn
negative through rounding.
---
 chaosmagpy/coordinate_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 58d8045..de0eaba 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1034,8 +1034,8 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Q = np.sqrt(1. + 2*e4*P)
 
-    r0 = -P*e2*r / (1. + Q) + np.sqrt(
-        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2)
+    r0 = -P*e2*r / (1. + Q) + np.sqrt(np.maximum(
+        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2, 0.))
 
     U = np.sqrt((r - e2*r0)**2 + z2)
 
-- 
2.43.0


From e6b00677b59e753601688f2f1b28b6e82276bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 13/29] fix: accept all integer types in is_leap_year

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..0dfafee 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -522,7 +522,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From 44b806dc3e72cd233c48a9085f62447a09581732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 14/29] fix: evaluate the last break point independently of the
 other times

If any other time was outside of the model period, the coefficients at the
last break point were taken from the appended extrapolation piece, which
gave wrong derivatives.
---
 chaosmagpy/chaos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 14bcceb..10d8db1 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -153,6 +153,9 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
+        # end point is part of the last piece, also if pieces are appended
+        end_coeffs = PP.derivative(nu=deriv)(end)
+
         if (np.amin(time) < start) or (np.amax(time) > end):
 
             dkey = {
@@ -209,7 +212,8 @@ class Base(object):
                 PP.extrapolate = False
 
         PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
+        coeffs = np.where(np.equal(time, end)[..., None], end_coeffs, PP(time))
+        coeffs = coeffs * 365.25**deriv
 
         return coeffs
 
-- 
2.43.0


From b409e64fae453d01ced60d428638c1a2b7735e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 15/29] fix: keep the default values apart from the configured
 values

Editing a configured array in place also changed the defaults, so a full
reset could not restore it.
---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index cb285d6..eed9a5d 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -74,6 +74,7 @@ be accessed after importing chaosmagpy through:
 
 """
 
+import copy
 import os
 import re
 import json
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.copy(val)
+                        for key, (val, _) in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -298,7 +300,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig({key: copy.copy(val)
+                           for key, (val, _) in DEFAULTS.items()})
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 2ec209b9a95b268e1c2db4b498cc864d48cee89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 16/29] fix: no overflow of dates outside of the years 1678 to
 2262 in mjd2000

The nanoseconds silently wrapped around (e.g. for 1600), which also affected
the conversion from and to decimal years.
---
 chaosmagpy/data_utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 0dfafee..ea60434 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -436,9 +436,16 @@ datetime.datetime(2002, 3, 4)])
 
     year = np.asarray(year)
 
-    if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
-            np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+    # keep days and fraction of a day apart to prevent overflow of the
+    # nanoseconds outside of the years 1678 to 2262
+    if np.issubdtype(year.dtype, np.datetime64):
+        date = year.astype('datetime64[D]')
+        fraction = year - date
+
+    elif np.issubdtype(year.dtype, np.dtype(dt.datetime).type):
+        datetime = year.astype('datetime64[us]')
+        date = datetime.astype('datetime64[D]')
+        fraction = datetime - date
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
@@ -447,20 +454,20 @@ datetime.datetime(2002, 3, 4)])
         day = np.char.zfill(np.asarray(day, dtype=np.str_), 2)
 
         year_month = np.char.add(np.char.add(year, '-'), month)
-        datetime = np.char.add(np.char.add(year_month, '-'), day)
+        date = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        date = date.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
+        fraction = (np.asarray(hour, dtype='timedelta64[h]')
                     + np.asarray(minute, dtype='timedelta64[m]')
                     + np.asarray(second, dtype='timedelta64[s]')
                     + np.asarray(microsecond, dtype='timedelta64[us]')
                     + np.asarray(nanosecond, dtype='timedelta64[ns]'))
 
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
+    days = date - np.datetime64('2000-01-01', 'D')
 
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+    return days / np.timedelta64(1, 'D') + fraction / np.timedelta64(1, 'D')
 
 
 def timestamp(time):
-- 
2.43.0


From 8bc4aab925307f2480c9b5ec02af7e2545198384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 17/29] fix: no loss of precision of the Legendre functions
 near the poles

The sine from the square root of 1 - cos**2 has no correct digits for
colatitudes within 1e-6 degrees of the poles, where the azimuthal field
component was NaN or wrong.
---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d7dc09d..89e6c85 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -925,7 +925,7 @@ def legendre_poly(nmax, theta):
     """
 
     costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
+    sinth = np.where(np.equal(theta, 180.), 0., np.sin(np.radians(theta)))
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From 60fb25f8eb60a8977386cdd0d72896cb7dbcea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 18/29] fix: synthesize the GSM field of models without static
 internal field

---
 chaosmagpy/chaos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 10d8db1..1952cdb 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1570,9 +1570,10 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        # use internal part to define modelled period
+        breaks = (self.model_static or self.model_tdep).breaks
+        start = breaks[0]
+        end = breaks[-1]
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From f11fd1220578ac74e631dbffa904ce8469ed0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 19/29] fix: reject vectors of strings in the configuration

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index eed9a5d..eebd545 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From cff5643de6eb47387b9b110ed4da901cb72fec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 20/29] fix: local_time returned 24 for times slightly before
 midnight

---
 chaosmagpy/coordinate_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index de0eaba..9410d26 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1634,7 +1634,10 @@ def local_time(time, phi):
 
     """
 
-    return np.remainder(time + phi/360, 1)*24
+    hours = np.remainder(time + phi/360, 1)*24
+
+    # rounding of tiny negative values gives exactly 24 hours
+    return np.remainder(hours, 24)
 
 
 def q_response_1D(periods, sigma, radius, n, kind=None):
-- 
2.43.0


From 823ce4ca34d3e7a65ae673e4bf648e70d0ef1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 21/29] fix: number of samples per piece in SHC files of
 high-order splines

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 1952cdb..91d2c23 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -742,7 +742,7 @@ class BaseModel(Base):
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
                 delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(times, start + delta*np.arange(step))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From d2a54adc33c03ac87ac792623fe58b91fe6d0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 22/29] fix: skip blank lines when reading SHC files

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index ea60434..2b28748 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -259,7 +259,7 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         data = np.array([])
         for line in f.readlines():
 
-            if line.strip().startswith(comment):
+            if not line.strip() or line.strip().startswith(comment):
                 continue
 
             newline = np.fromstring(line, sep=' ')
-- 
2.43.0


From c21bf2ea18fc411fd8c04d899ad706ae8034095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 23/29] fix: unpack cell arrays with one element irrespective
 of their shape

---
 chaosmagpy/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 2b28748..0015a7c 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -84,8 +84,8 @@ def load_matfile(filepath, variable_names=None, **kwargs):
 
             # if no fields in array
             if names is None:
-                if struct.dtype == np.dtype('O') and struct.shape == (1, 1):
-                    return traverse_struct(struct[0, 0])
+                if struct.dtype == np.dtype('O') and struct.size == 1:
+                    return traverse_struct(struct.item())
                 else:
                     return struct.squeeze()
 
-- 
2.43.0


From 48bdfb0805dca5b44cdf2ba66aba527d0d065ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 24/29] fix: save Euler angles of satellites with the same
 number of bins

---
 chaosmagpy/chaos.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 91d2c23..a6ff9f3 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2318,16 +2318,23 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            def cell(arrays):
+                # keep one element per satellite, also if shapes are equal
+                out = np.empty((len(arrays),), dtype='object')
+                for k, array in enumerate(arrays):
+                    out[k] = array
+                return out
+
+            hdf.write(cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From 8dfe4c90c977a55543809ad4300a3a0cd993d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 25/29] fix: load Euler angles of models with a single
 satellite

---
 chaosmagpy/chaos.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a6ff9f3..c47fda2 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2599,8 +2599,13 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        def cell(data):
+            # restore cell array with one element unpacked by load_matfile
+            data = np.asarray(data)
+            return data if data.dtype == np.dtype('O') else [data]
+
         # append generic satellite name if more data available or reduce
-        t_break_Euler = model_euler['t_break_Euler']
+        t_break_Euler = cell(model_euler['t_break_Euler'])
         n = len(t_break_Euler)
         m = len(satellites)
 
@@ -2619,8 +2624,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         coeffs_euler = dict()
         for num, satellite in enumerate(satellites):
 
-            angles = [model_euler[angle][num] for angle in [
-                'alpha', 'beta', 'gamma']]
+            angles = [cell(model_euler[angle])[num].reshape((-1, 1))
+                      for angle in ['alpha', 'beta', 'gamma']]
             euler = np.concatenate(angles, axis=-1).astype(float)
 
             # first: order, second: number of intervals, third: 3 angles
@@ -2643,7 +2648,10 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+        if prerotation is not None:
+            prerotation = np.reshape(prerotation, (-1, 3))
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From a118be2f4af22a2894acfbbe7b37ccfe8489abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 26/29] fix: load SM offsets q11 and s11 with a single bin

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index c47fda2..94c74a0 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2585,7 +2585,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
-- 
2.43.0


From 76ecb3271c42e43d890b1c414cabe2553576c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 27/29] fix: q_response_1D accepts a single period, as
 documented

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 9410d26..bad8fef 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1718,7 +1718,8 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From 6f74f71139a822463a02d649b321246a61ed4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 28/29] fix: q_response accepts a conductivity model with a
 single layer

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index bad8fef..0ee2683 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1925,7 +1925,7 @@ def q_response(frequency, nmax):
 
     # load conductivity model
     filepath = config_utils.basicConfig['file.Earth_conductivity']
-    sigma_model = np.loadtxt(filepath)
+    sigma_model = np.loadtxt(filepath, ndmin=2)
 
     radius_ref = 6371.2  # reference radius in km
 
-- 
2.43.0


From f456b036c5ee0dd7579fd565f9498ddc0d9dcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:53 +0000
Subject: [PATCH 29/29] fix: dipole components given separately broadcast, as
 documented

---
 chaosmagpy/coordinate_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0ee2683..c3f5e81 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -144,16 +144,18 @@ def _dipole_to_unit(*args):
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
 
     elif len(args) == 2:
-        theta = np.radians(args[0])
-        phi = np.radians(args[1])
+        theta, phi = np.broadcast_arrays(np.radians(args[0]),
+                                         np.radians(args[1]))
 
         vector = np.stack([np.sin(theta)*np.cos(phi),
                            np.sin(theta)*np.sin(phi),
                            np.cos(theta)], axis=-1)
 
     elif len(args) == 3:
+        g10, g11, h11 = np.broadcast_arrays(*args)
+
         # g11, h11, g10: dipole
-        vector = np.stack([args[1], args[2], args[0]], axis=-1)
+        vector = np.stack([g11, h11, g10], axis=-1)
 
         # unit vector, opposite to dipole
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
-- 
2.43.0

