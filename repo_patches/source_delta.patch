From 4e9d6818211c02f47d250563d062b77204a305dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 01/48] fix: cplxpair default tolerance for integer input

np.float does not exist any more in numpy.
---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..1d9297e 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -300,5 +300,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From f2615dd760c552aaa514691e8b9cdf7bb6187d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 02/48] fix: undbm accepts any array_like argument, as
 documented

---
 src/pydsm/delsig/_decibel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
-- 
2.43.0


From f1a8f4e954b63927126910c0141f1c1071df22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 03/48] fix: operator precedence in the ISO 226 B_f table
 (sect. 4.2)

---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..f0ff8a3 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10.0**((L_p+tbl_L_U)/10.0-9.0))**tbl_alpha_f -
+           (0.4*10.0**((tbl_T_f+tbl_L_U)/10.0-9.0))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From de3c971f61c672d6e4bcef8a2d11f1487e3277b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 04/48] fix: do not hand out the ISO 226 module tables
 themselves

A caller modifying the returned array was corrupting the tabled data.
---
 src/pydsm/iso226.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index f0ff8a3..798acdf 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,7 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +168,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +185,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From 9c4b51ead79d9e3c4cdd6eaa2094bf330ca027e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 05/48] fix: A-weighting zpk form must have a pole at 737.9 Hz

The function form uses 737.9 Hz, as per the standard.
---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From 338ce165548b720412226781d1643f07febe52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 06/48] fix: optimized zeros for order 10

The table replicated the entry for order 8, with only 8 zeros.
---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From ca7b5bd962d2dde6610f95e7a28d4312d4a098e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 07/48] fix: dunn_optzeros must return n zeros

Order 7 was returning 8 zeros, non positive orders were wrapping around.
---
 src/pydsm/NTFdesign/psychoacoustic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..b1b24e4 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -106,12 +106,12 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-    if n > 8:
-        raise ValueError('Optimized zeros for n>14 are not available.')
+    if n < 1 or n > 8:
+        raise ValueError('Optimized zeros are only available for n in 1-8.')
     return np.asarray(zero_freqs_unnorm[n-1])/22.05
 
 
-- 
2.43.0


From b41d9e66c46f2deccfa57a6a99191f15508bc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 08/48] fix: raw_xcorr must compute sum x(n) y(n-k), as
 documented

---
 src/pydsm/correlations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..db9f88e 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -103,11 +103,11 @@ def raw_xcorr(x, y, N):
     Notes
     -----
     the routine does not make any check on the lengths of x, y and N. It
-    is responsibility of the user to assure that N<=len(y). In some cases
+    is responsibility of the user to assure that N<=len(x). In some cases
     (but only in some cases), zero padding is assumed.
     """
     mx = len(x)
     my = len(y)
-    q = np.asarray([np.dot(y[k:min(my, mx+k)],
-                           x[0:min(my-k, mx)]) for k in range(N+1)])
+    q = np.asarray([np.dot(x[k:min(mx, my+k)],
+                           y[0:min(mx-k, my)]) for k in range(N+1)])
     return q
-- 
2.43.0


From a190f0dafc2598f3fccb776e25df9f01da0ac4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 09/48] fix: dtft_hermitian accepts any array_like argument, as
 documented

---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..858c2af 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,7 +138,7 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.real(x)
     return lambda f: \
         x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
 
-- 
2.43.0


From 75b4406e18427a08e41490158f93feb481cc2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 10/48] fix: documented order of the values returned by
 fft_centered

---
 src/pydsm/ft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 858c2af..2d9eb57 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -65,10 +65,10 @@ def fft_centered(x, fs=1):
 
     Returns
     -------
-    X : ndarray
-        samples of the DFT of the input vector
     ff : ndarray
         vector of frequencies corresponding to the samples in X
+    X : ndarray
+        samples of the DFT of the input vector
 
     Other Parameters
     ----------------
-- 
2.43.0


From 62d4814a1a0d7b1cc92917f5d013d035d2f6f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 11/48] fix: idtft_hermitian must use its own default_options

---
 src/pydsm/ft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 2d9eb57..e4f6f9a 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options,
+                            [], ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
-- 
2.43.0


From db03c8a19a38ab7e2d1ef24319790dd4a8e27d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 12/48] fix: ntf_hybrid_weighting must use its own
 default_options

---
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..61918d1 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -573,17 +573,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +591,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
-- 
2.43.0


From bb2326a5b43df7b313eaf4eb2542832189e8cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 13/48] fix: ntf_fir_audio_weighting must use its own
 default_options

---
 src/pydsm/NTFdesign/psychoacoustic.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index b1b24e4..587b197 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -59,6 +59,7 @@ from .. import audio_weightings
 from .weighting import ntf_fir_weighting
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
+from ..utilities import digested_options
 
 __all__ = ["dunn_optzeros", "dunn_optzeros_cplx", "synthesize_ntf_dunn",
            "synthesize_ntf_from_audio_weighting",
@@ -290,7 +291,23 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    # Manage optional parameters. Leftovers are validated downstream
+    defaults = ntf_fir_audio_weighting.default_options
+    opts = digested_options(options, defaults,
+                            ['show_progress', 'fix_pos', 'modeler'],
+                            ['quad_opts'], False)
+    if opts['modeler'] == 'cvxpy':
+        opts.update(digested_options(options, defaults,
+                                     [], ['cvxpy_opts'], False))
+        if opts['cvxpy_opts']['solver'] == 'scs':
+            opts.update(digested_options(options, defaults,
+                                         [], ['scs_opts'], False))
+    if opts['modeler'] != 'cvxpy' or \
+            opts['cvxpy_opts']['solver'] == 'cvxopt':
+        opts.update(digested_options(options, defaults,
+                                     [], ['cvxopt_opts'], False))
+    opts.update(options)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts)
 
 ntf_fir_audio_weighting.default_options = \
     ntf_fir_weighting.default_options.copy()
-- 
2.43.0


From 75f6502f8d6cf48b1493c37f93ef6bce0b931349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 14/48] fix: synthesize_ntf_from_filter must merge its own
 quad_opts defaults

---
 src/pydsm/NTFdesign/filter_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..625f95b 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -292,7 +292,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     # Manage optional parameters
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
+                             [], ['quad_opts'], False)
     opts2 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              ['show_progress'], ['cvxopt_opts'])
-- 
2.43.0


From afcc53e0b3a372d29d6e4213434fc63626655978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 15/48] fix: bandpass designs in synthesizeChebyshevNTF

The band edges were duplicated (rather than doubled) and the order was not
an integer.
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..4dd77df 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -110,7 +110,6 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
         f1, f2 = ds_f1f2(osr, f0)
-        f1f2 = (f1, f2)
 
     # Iteratively solve for the attenuation spec (x) which yields the
     # desired H_inf
@@ -144,7 +143,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From fa3d595a7d42d4edc61cb296403b72c7f43b7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/48] fix: synthesizeChebyshevNTF must converge to the
 requested H_inf

The search was stopping (silently) whenever the secant step left the bracket
or moved along a flat part of the curve, returning NTFs with a peak gain quite
different from H_inf (e.g. 1.40 rather than 4 for order=8, osr=32).
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 4dd77df..8278827 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -120,7 +120,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
     xtol = 1e-6
     # Initial guess for x
     x = 60.
-    itn_limit = 10
+    itn_limit = 100
     converged = False
     f_p = 0.
 
@@ -159,17 +159,20 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             # Normal iteration
             df = f - f_p
-            if np.abs(df) < ftol:
+            if np.abs(f) < ftol:
                 converged = True
                 break
-            dx = -f * dx/df
+            dx = -f * dx/df if np.abs(f) < 0.5*np.abs(f_p) else np.inf
         if converged:
             break
         x_p = x
         f_p = f
-        x = np.max((x_min, np.min((x+dx, x_max))))
+        x = x + dx
+        if not x_min < x < x_max:
+            # Secant method is not converging: practice bisection
+            x = (x_min+x_max)/2
         dx = x - x_p
-        if np.abs(dx) < xtol:
+        if x_max-x_min < xtol:
             break
 
     z = cplxpair(z)
-- 
2.43.0


From 586f5d436a0e1c0b78c43b66d9737671ae3106ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 17/48] fix: cplxpair must keep pairs together when they share
 their real part

---
 src/pydsm/relab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 1d9297e..40dbc6c 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -285,9 +285,9 @@ def cplxpair(x, tol=None, dim=None):
                 raise ValueError('Complex numbers cannot be paired')
             # Output should contain "perfect" pairs. Hence, keep entries
             # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len] = np.concatenate(
-                (np.conj(sub_x[:sim_len//2-1:-1]),
-                 sub_x[:sim_len//2-1:-1]))
+            pos_x = np.sort(sub_x[sim_len//2:])
+            x_cplx[start:start+sim_len:2] = np.conj(pos_x)
+            x_cplx[start+1:start+sim_len:2] = pos_x
             start += sim_len
         return np.concatenate((x_cplx, x_real))
 
-- 
2.43.0


From b85f2c18707fb1552eebaa4250f9c096de803c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 18/48] fix: cplxpair was looping forever on some unpairable
 values

E.g. [10j, 1e-13-1j].
---
 src/pydsm/relab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 40dbc6c..841eb48 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -275,6 +275,8 @@ def cplxpair(x, tol=None, dim=None):
                             tol*np.abs(v))), x_cplx.size-start-1)+1
             if (sim_len % 2) != 0:
                 sim_len -= 1
+            if sim_len == 0:
+                raise ValueError('Complex numbers cannot be paired')
             # At this point, sim_len elements with identical real part
             # have been identified.
             sub_x = x_cplx[start:start+sim_len]
-- 
2.43.0


From 5f4b6922dc3fc85d1f6bf2da8882b59d6f75fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 19/48] fix: cplxpair was dropping imaginary parts in
 multidimensional arrays

It was happening whenever the first vector being processed was real.
---
 src/pydsm/relab.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 841eb48..affee65 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -303,4 +303,7 @@ def cplxpair(x, tol=None, dim=None):
             tol = 100*eps(x.dtype)
         except:
             tol = 100*eps(float)
-    return np.apply_along_axis(cplxpair_vec, dim, x, tol)
+    # All the vectors need the same type, not to loose the imaginary parts
+    y = np.apply_along_axis(
+        lambda v: cplxpair_vec(v, tol).astype(x.dtype), dim, x)
+    return y if np.any(y.imag) else y.real
-- 
2.43.0


From 273649ea971ade48ee1a223919d8fbcef73c5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 20/48] fix: simulateDSM must accept a vector nlev, as
 documented

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 6 +++---
 src/pydsm/delsig/_simulateDSM_scipy.py       | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..d5192a1 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,10 +48,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
-        if c_nlev.ndim > 1:
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
+        if c_nlev.ndim > 1 or c_nlev.size == 0:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..24c539b 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..02bb110 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,10 +55,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
-        if c_nlev.ndim > 1:
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
+        if c_nlev.ndim > 1 or c_nlev.size == 0:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
-- 
2.43.0


From a39bd03f382bb4e1817dd9dfa5f9a75d13698248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 21/48] fix: simulateDSM must accept any array_like input, as
 documented

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index d5192a1..c9c4061 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 02bb110..21fac92 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
-- 
2.43.0


From d83c9b5b3b5086c47e1216d712bf707c2d8d6268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 22/48] fix: check the modulator specification in the fast
 simulators

A modulator specified by its NTF has one input and one quantizer: with more
of them the simulation was running on data outside the arrays. Similarly,
modulators without state variables were returning uninitialized data.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 4 ++++
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index c9c4061..2db4ac4 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -81,6 +81,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1 or ntf_z.shape[0] != ntf_p.shape[0]:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
@@ -92,6 +94,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+        if order < 1 or nu < 1:
+            raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 21fac92..9e680b5 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -88,6 +88,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1 or ntf_z.shape[0] != ntf_p.shape[0]:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
@@ -99,6 +101,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+        if order < 1 or nu < 1:
+            raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
-- 
2.43.0


From 623f175c04db5efd6767e4e885a970e22e36791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 23/48] fix: check the arguments in the slow simulator as in
 the fast ones

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 74 ++++++++++++++++++--------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 24c539b..dfc89e9 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -72,37 +72,69 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     warn('Running the slow version of simulateDSM.',
          PyDsmSlowPathWarning)
 
-    # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(-1)
+    # Make sure that nlev is a 1D int array
+    try:
+        nlev = np.asarray(nlev, dtype=np.int32)
+        if nlev.ndim > 1 or nlev.size == 0:
+            raise TypeError()
+        nlev = nlev.reshape(-1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: nlev must be convertible into a 1D int array")
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
-    if u.ndim == 1:
-        u = u.reshape(1, -1)
+    try:
+        u = np.asarray(u, dtype=float)
+        if u.ndim > 2:
+            raise TypeError()
+        if u.ndim <= 1:
+            u = u.reshape(1, -1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: u must be convertible into a 2D float array")
 
     nu = u.shape[0]
     nq = np.size(nlev)
 
-    if type(arg2) == tuple and len(arg2) == 3:
-        # Assume ntf in zpk form
-        (ntf_z, ntf_p, ntf_k) = arg2
-        form = 2
-        order = len(ntf_z)
-    else:
-        # Assume ABCD form
-        ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
-            # ABCD dimensions OK
+    try:
+        if type(arg2) == tuple and len(arg2) == 3:
+            # Assume ntf in zpk form
+            ntf_z = np.asarray(arg2[0], dtype=complex)
+            ntf_p = np.asarray(arg2[1], dtype=complex)
+            ntf_k = float(arg2[2])
+            if ntf_z.ndim != 1 or ntf_p.ndim != 1:
+                raise TypeError()
+            if nu != 1 or nq != 1 or ntf_z.shape[0] != ntf_p.shape[0]:
+                raise TypeError()
+            form = 2
+            order = ntf_z.shape[0]
+        else:
+            # Assume ABCD form
+            ABCD = np.asarray(arg2, dtype=float)
+            if ABCD.ndim != 2:
+                raise TypeError()
+            if ABCD.shape[1] != nu+ABCD.shape[0]:
+                raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
-        else:
-            raise ValueError('Incorrect modulator specification')
+        if order < 1 or nu < 1:
+            raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect modulator specification')
 
     # Assure that the state is a column vector
-    if np.isscalar(x0) and x0 == 0:
-        x0 = np.zeros((order, 1))
-    else:
-        x0 = np.array(x0, dtype=float).reshape(-1, 1)
+    try:
+        if np.isscalar(x0) and x0 == 0:
+            x0 = np.zeros((order, 1))
+        else:
+            x0 = np.array(x0, dtype=float)
+            if x0.ndim < 1 or x0.ndim > 2:
+                raise TypeError()
+            x0 = x0.reshape(-1, 1)
+            if x0.shape[0] != order:
+                raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect initial condition specification')
 
     if form == 1:
         A = ABCD[0:order, 0:order]
-- 
2.43.0


From d017ef484a74253c99382b37316489924fac5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 24/48] fix: multiple inputs and quantizers in the slow
 simulator

Also fixes store_xn with more than one state variable and ds_quantize for
scalar arguments.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index dfc89e9..b712afa 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -180,14 +180,15 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i:i+1]))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i] = y0[:, 0]
+        v[:, i] = ds_quantize(y0, nlev)[:, 0]
+        x0 = np.real(np.dot(A, x0) +
+                     np.dot(B, np.vstack((u[:, i:i+1], v[:, i:i+1]))))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i] = x0[:, 0]
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
@@ -225,6 +226,9 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
+    n = np.asarray(n).reshape(-1)
+    shape = np.shape(y)
+    y = np.asarray(y, dtype=float).reshape(n.size, -1)
     v = np.empty_like(y)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
@@ -232,5 +236,5 @@ def ds_quantize(y, n):
         else:
             v[qi] = 2*np.floor(0.5*(y[qi]+1))
         L = n[qi]-1
-        v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+        v[qi] = np.maximum(np.minimum(v[qi], L), -L)
+    return v.reshape(shape)[()]
-- 
2.43.0


From 6c965316eb663cefbcb1495f2d6fd20f2242b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 25/48] fix: simulateDSM with 0-d input was reading outside the
 array

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 2db4ac4..e384498 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -62,7 +62,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         c_u = np.asarray(u, dtype=np.float64, order='C')
         if c_u.ndim > 2:
             raise TypeError()
-        if c_u.ndim == 1:
+        if c_u.ndim <= 1:
             c_u = c_u.reshape(1, -1)
     except (ValueError, TypeError):
         raise ValueError(\
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 9e680b5..b4df74b 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -69,7 +69,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         c_u = np.asarray(u, dtype=np.float64, order='C')
         if c_u.ndim > 2:
             raise TypeError()
-        if c_u.ndim == 1:
+        if c_u.ndim <= 1:
             c_u = c_u.reshape(1, -1)
     except (ValueError, TypeError):
         raise ValueError(\
-- 
2.43.0


From e51563f0ea7ad42eab6922d3b868376501e1660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 26/48] fix: np.alltrue does not exist any more in numpy
 (shiftdim doctest)

---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index affee65..ea77a8f 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -160,7 +160,7 @@ def shiftdim(x, n=None, nargout=2):
     >>> n
     2
     >>> c = shiftdim(b, -n, nargout=1)
-    >>> np.alltrue(c == a)
+    >>> bool(np.all(c == a))
     True
     >>> d = shiftdim(a, 3, nargout=1)
     >>> d.shape
-- 
2.43.0


From 93a03482333f694445ab497c572cafa0904624cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 27/48] fix: integer division in cvxpy_tdr reshape

k / mn is a float in Python 3 and cannot be used as an index.
---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From 0e18f5ee96fb16d0cc2f4a99d0da5de840e067ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 28/48] fix: minmax zf option with the cvxpy modeler

The code was using the API of cvxpy 0.x.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
-- 
2.43.0


From 2163c3a9daa557d869a9711286a797014a662ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 29/48] fix: minmax zf option with the picos modeler

The constraint was mixing cvxopt matrices and picos operators.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..83868d2 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -126,11 +126,12 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = cvxopt.matrix(np.cos(omega0*nn))
-                vi = cvxopt.matrix(np.sin(omega0*nn))
-                vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = cvxopt.matrix(np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]]))
+                p.add_constraint(
+                    c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From b37f9c40b7de020e74bb6973224564792b8dee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:42 +0000
Subject: [PATCH 30/48] fix: mult_weightings at a one-element array of
 frequencies

---
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 61918d1..dc23381 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -75,7 +75,7 @@ def mult_weightings(*ww):
                      lambda f: np.abs(evalTF(wi, np.exp(2j*np.pi*f)))**2)(wi)
         else:
             wn[i] = wi
-    return lambda f: np.prod([w(f) for w in wn], axis=0)
+    return lambda f: np.prod(np.broadcast_arrays(*[w(f) for w in wn]), axis=0)
 
 
 def q0_weighting(P, w, **options):
-- 
2.43.0


From f386a328e37b290b1a0b7ed95dcbc410043c9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 31/48] fix: synthesize_ntf_from_filter ignored its own
 modeler, fix_pos and cvxpy defaults

---
 src/pydsm/NTFdesign/filter_based.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 625f95b..f80fc4a 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -293,9 +293,21 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              [], ['quad_opts'], False)
-    opts2 = digested_options(options,
-                             synthesize_ntf_from_filter.default_options,
-                             ['show_progress'], ['cvxopt_opts'])
+    defaults = synthesize_ntf_from_filter.default_options
+    opts2 = digested_options(options, defaults,
+                             ['show_progress', 'fix_pos', 'modeler'],
+                             [], False)
+    if opts2['modeler'] == 'cvxpy':
+        opts2.update(digested_options(options, defaults,
+                                      [], ['cvxpy_opts'], False))
+        if opts2['cvxpy_opts']['solver'] == 'scs':
+            opts2.update(digested_options(options, defaults,
+                                          [], ['scs_opts'], False))
+    if opts2['modeler'] != 'cvxpy' or \
+            opts2['cvxpy_opts']['solver'] == 'cvxopt':
+        opts2.update(digested_options(options, defaults,
+                                      [], ['cvxopt_opts'], False))
+    digested_options(options, {})
     # Do the computation
     q0 = q0_from_filter(order, H, H_type, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From 46b2acd02824a2d0c8fb4d56e669177c60ed7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 32/48] fix: q0_from_filter_ir for responses shorter than the
 order

---
 src/pydsm/NTFdesign/legacy/_q0_from_ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/legacy/_q0_from_ir.py b/src/pydsm/NTFdesign/legacy/_q0_from_ir.py
index 4ce6471..31a7cff 100644
--- a/src/pydsm/NTFdesign/legacy/_q0_from_ir.py
+++ b/src/pydsm/NTFdesign/legacy/_q0_from_ir.py
@@ -20,6 +20,7 @@
 
 from __future__ import division, print_function
 
+import numpy as np
 from ...correlations import raw_acorr
 
 __all__ = ["q0_from_filter_ir"]
@@ -53,5 +54,6 @@ def q0_from_filter_ir(P, ir):
     scipy.integrate.quad : integrator used internally.
         For the meaning of the integrator parameters.
     """
-    # Manage optional parameters
-    return raw_acorr(ir, P)
+    # The correlation is null at lags beyond the length of the response
+    N = min(P, len(ir))
+    return np.append(raw_acorr(ir, N), np.zeros(P-N))
-- 
2.43.0


From 97f69444972dedce08f834c9378ddca7d938a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 33/48] fix: deprecated cplxpair had a different default
 tolerance and no dim argument

---
 src/pydsm/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/utilities.py b/src/pydsm/utilities.py
index ac58304..764b5fc 100644
--- a/src/pydsm/utilities.py
+++ b/src/pydsm/utilities.py
@@ -208,7 +208,7 @@ def db(x, signal_type='voltage', R=1):
     return relab.db(x, signal_type, R)
 
 
-def cplxpair(x, tol=100*EPS):
+def cplxpair(x, tol=None, dim=None):
     """
     Alias for :func:`pydsm.relab.cplxpair`.
 
@@ -217,4 +217,4 @@ def cplxpair(x, tol=100*EPS):
     """
     warn('Function cplxpair moved to relab module',
          PyDsmDeprecationWarning)
-    return relab.cplxpair(x, tol)
+    return relab.cplxpair(x, tol, dim)
-- 
2.43.0


From efb42ce62efdafeb8b3e004d14cf9f5df4b4e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 34/48] fix: cplxpair was rejecting conjugate pairs sharing
 their real part next to others

---
 src/pydsm/relab.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index ea77a8f..70e0ffa 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -270,8 +270,10 @@ def cplxpair(x, tol=None, dim=None):
             raise ValueError('Complex numbers cannot be paired')
         start = 0
         while start < x_cplx.size:
+            # (elements with the very same real part are never separated)
             sim_len = next((i for i, v in enumerate(x_cplx[start+1:]) if
-                           (np.abs(np.real(v)-np.real(x_cplx[start])) >
+                           (np.real(v) != np.real(x_cplx[start+i]) and
+                            np.abs(np.real(v)-np.real(x_cplx[start])) >
                             tol*np.abs(v))), x_cplx.size-start-1)+1
             if (sim_len % 2) != 0:
                 sim_len -= 1
-- 
2.43.0


From 56272efc083ea355b1d72eb4adb6b0dc33f0c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 35/48] fix: cancellation in maxflat_fir_zeros when alpha is
 small

---
 src/pydsm/NTFdesign/helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/helpers.py b/src/pydsm/NTFdesign/helpers.py
index 332cdff..afd6828 100644
--- a/src/pydsm/NTFdesign/helpers.py
+++ b/src/pydsm/NTFdesign/helpers.py
@@ -74,11 +74,11 @@ def maxflat_fir_zeros(order, alpha):
     me2 = -0.5*(x**(2./order))
     w = (2*np.arange(1, order+1)+1)*np.pi/order
     mb2 = 1+me2*np.exp(1j*w)
-    p = mb2 - np.sqrt(mb2**2-1)
-    # Reflect poles that fall out of the unit circle
-    out = (np.abs(p) > 1)
-    p[out] = 1/p[out]
-    return p
+    d = np.sqrt(mb2**2-1)
+    # Each pair of reciprocal roots is mb2-d, mb2+d. Return the inverse of
+    # the largest one, since the smallest is prone to cancellation
+    p = np.where(np.abs(mb2-d) > np.abs(mb2+d), mb2-d, mb2+d)
+    return 1/p
 
 
 def spread_fir_uc_zeros(order, OSR, cf, cf_args=[], cf_kwargs={}, **options):
-- 
2.43.0


From 8261b0fc253049342ce0d46b6a28e79cc3259c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 36/48] fix: spread_fir_uc_zeros with a single zero

---
 src/pydsm/NTFdesign/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/NTFdesign/helpers.py b/src/pydsm/NTFdesign/helpers.py
index afd6828..f3e2959 100644
--- a/src/pydsm/NTFdesign/helpers.py
+++ b/src/pydsm/NTFdesign/helpers.py
@@ -162,6 +162,9 @@ def spread_fir_uc_zeros(order, OSR, cf, cf_args=[], cf_kwargs={}, **options):
                             [], ['L_BFGS_B_opts'])
     xl = order // 2
     zeros = np.zeros(order, dtype=complex)
+    if xl == 0:
+        # No zero is free to move
+        return dof2zeros(np.zeros(0))
     xx = minimize(mf, np.linspace(np.pi/OSR/order, np.pi/OSR, xl),
                   method='l-bfgs-b', options=opts["L_BFGS_B_opts"],
                   bounds=[(0, np.pi/OSR)] * xl).x
-- 
2.43.0


From f46460c895efc1ca51a31d947123c240c51c7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 37/48] fix: synthesizeNTF loses poles near the origin to
 cancellation

The pole of each reciprocal pair which is inside the unit circle was got by
subtracting almost equal numbers when it is close to 0, so that poles that
should be conjugate were not, and cplxpair raised.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 18 ++++++++++--------
 src/pydsm/delsig/_synthesizeNTF1.py | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..5d8101e 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -107,10 +107,11 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 me2 = -0.5*(x**(2./order))
                 w = (2*np.arange(1, order+1)+1)*np.pi/order
                 mb2 = 1+me2*np.exp(1j*w)
-                p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                d = np.sqrt(mb2**2-1)
+                # Pick the pole inside the unit circle from any pair mb2-d,
+                # mb2+d of reciprocal values. Going via the largest avoids
+                # cancellation
+                p = 1/np.where(np.abs(mb2-d) > np.abs(mb2+d), mb2-d, mb2+d)
                 # The following is not exactly what delsig does.
                 # We do not have an identical cplxpair
                 p = cplxpair(p)
@@ -148,10 +149,11 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             e2 = 0.5*x**(2./order)
             w = (2*np.arange(order)+1)*np.pi/order
             mb2 = c2pif0 + e2*np.exp(1j*w)
-            p = mb2 - np.sqrt(mb2**2-1)
-            # Reflect poles to be inside the unit circle
-            out = abs(p) > 1
-            p[out] = 1/p[out]
+            d = np.sqrt(mb2**2-1)
+            # Pick the pole inside the unit circle from any pair mb2-d,
+            # mb2+d of reciprocal values. Going via the largest avoids
+            # cancellation
+            p = 1/np.where(np.abs(mb2-d) > np.abs(mb2+d), mb2-d, mb2+d)
             # The following is not exactly what delsig does.
             p = cplxpair(p)
             f = np.real(evalTF((z, p, k), z_inf))-H_inf
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..5d5fd26 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -125,10 +125,11 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     me2 = -0.5*(x**(2./order))
                     w = (2*np.arange(1, order+1)+1)*np.pi/order
                     mb2 = 1+me2*np.exp(1j*w)
-                    p = mb2 - np.sqrt(mb2**2-1)
-                    # Reflect poles to be inside the unit circle
-                    out = abs(p) > 1
-                    p[out] = 1/p[out]
+                    d = np.sqrt(mb2**2-1)
+                    # Pick the pole inside the unit circle from any pair mb2-d,
+                    # mb2+d of reciprocal values. Going via the largest avoids
+                    # cancellation
+                    p = 1/np.where(np.abs(mb2-d) > np.abs(mb2+d), mb2-d, mb2+d)
                     # The following is not exactly what delsig does.
                     # We do not have an identical cplxpair
                     p = cplxpair(p)
@@ -167,10 +168,11 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 e2 = 0.5*x**(2./order)
                 w = (2*np.arange(order)+1)*np.pi/order
                 mb2 = c2pif0 + e2*np.exp(1j*w)
-                p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                d = np.sqrt(mb2**2-1)
+                # Pick the pole inside the unit circle from any pair mb2-d,
+                # mb2+d of reciprocal values. Going via the largest avoids
+                # cancellation
+                p = 1/np.where(np.abs(mb2-d) > np.abs(mb2+d), mb2-d, mb2+d)
                 # The following is not exactly what delsig does.
                 p = cplxpair(p)
                 f = np.real(evalTF((z, p, k), z_inf))-H_inf
-- 
2.43.0


From 7610324c44a7fe728b533e2c47ea8ccc015d3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 38/48] fix: synthesizeNTF stops short of the required Hinf
 without a warning

The secant step used an increment that is not the one last applied when x
is cut by 10, stopped on an absolute threshold on x, and divided by 0 when the
gain does not change.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 14 ++++++++++++--
 src/pydsm/delsig/_synthesizeNTF1.py | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 5d8101e..26eb4f1 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -118,15 +118,20 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 f = np.real(evalTF((z, p, k), -1))-H_inf
                 if itn == 1:
                     delta_x = -f/100
+                elif f == fprev:
+                    warn('Unable to achieve specified Hinf',
+                         PyDsmApproximationWarning)
+                    break
                 else:
                     delta_x = -f*delta_x/(f-fprev)
                 xplus = x+delta_x
                 if xplus > 0:
                     x = xplus
                 else:
+                    delta_x = -0.9*x
                     x = x*0.1
                 fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                if abs(f) < 1e-10 or abs(delta_x) < 1e-10*x:
                     break
                 if x > 1e6:
                     warn('Unable to achieve specified Hinf, '
@@ -159,15 +164,20 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             f = np.real(evalTF((z, p, k), z_inf))-H_inf
             if itn == 1:
                 delta_x = -f/100
+            elif f == fprev:
+                warn('Unable to achieve specified Hinf',
+                     PyDsmApproximationWarning)
+                break
             else:
                 delta_x = -f*delta_x/(f-fprev)
             xplus = x+delta_x
             if xplus > 0:
                 x = xplus
             else:
+                delta_x = -0.9*x
                 x = x*0.1
             fprev = f
-            if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+            if abs(f) < 1e-10 or abs(delta_x) < 1e-10*x:
                 break
             if x > 1e6:
                 warn('Unable to achieve specified Hinf, '
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index 5d5fd26..d04cc7d 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -136,6 +136,10 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     f = np.real(evalTF((z, p, k), z_inf))-H_inf
                     if itn == 1:
                         delta_x = -f/100
+                    elif f == fprev:
+                        warn('Unable to achieve specified Hinf',
+                             PyDsmApproximationWarning)
+                        break
                     else:
                         delta_x = -f*delta_x/(f-fprev)
 
@@ -143,9 +147,10 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     if xplus > 0:
                         x = xplus
                     else:
+                        delta_x = -0.9*x
                         x = x*0.1
                     fprev = f
-                    if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                    if abs(f) < 1e-10 or abs(delta_x) < 1e-10*x:
                         break
                     if x > 1e6:
                         warn('Unable to achieve specified Hinf, '
@@ -178,15 +183,20 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 f = np.real(evalTF((z, p, k), z_inf))-H_inf
                 if itn == 1:
                     delta_x = -f/100
+                elif f == fprev:
+                    warn('Unable to achieve specified Hinf',
+                         PyDsmApproximationWarning)
+                    break
                 else:
                     delta_x = -f*delta_x/(f-fprev)
                 xplus = x+delta_x
                 if xplus > 0:
                     x = xplus
                 else:
+                    delta_x = -0.9*x
                     x = x*0.1
                 fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                if abs(f) < 1e-10 or abs(delta_x) < 1e-10*x:
                     break
                 if x > 1e6:
                     warn('Unable to achieve specified Hinf, '
-- 
2.43.0


From a0af35250c044d7a72fd2884608f8d9967e69ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 39/48] fix: synthesizeNTF poles not updated to the last
 optimized zeros

The last iteration moved the zeros and left the poles as they were, so that
the gain was not the required one.
---
 src/pydsm/delsig/_synthesizeNTF1.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index d04cc7d..48a098f 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -101,7 +101,9 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
     Hinf_itn_limit = 100
     fprev = 0
 
-    opt_iteration = 5   # Max number of zero-optimizing/Hinf iterations
+    # Max number of zero-optimizing/Hinf iterations, plus a final one where
+    # the poles alone are updated
+    opt_iteration = 6
     while opt_iteration > 0:
         # Iteratively determine the poles by finding the value of the x
         # parameter which results in the desired H_inf
@@ -209,7 +211,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                          PyDsmApproximationWarning)
 
         # ---- Zero optimization part
-        if (opt.size == 1 and opt < 3) or opt.size > 1 or x0.size < 1:
+        if (opt.size == 1 and opt < 3) or opt.size > 1 or x0.size < 1 or \
+                opt_iteration == 1:
             # Do not optimize the zeros
             opt_iteration = 0
         else:
-- 
2.43.0


From 0b6437cf13cd828d14544517168e488c6da8e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 40/48] fix: synthesizeNTF halves the poles with explicit zeros
 and f0 != 0

The order was halved and never restored when the zeros are given explicitly.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 26eb4f1..bdbb336 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -86,6 +86,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     p = np.zeros(order)
     k = 1
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index 48a098f..6f4e651 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -89,6 +89,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
-- 
2.43.0


From a51b19d89336227ed4c808b73a65f4b6450a42dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 41/48] fix: clans: rounding errors in the initial poles made
 the starting point NaN

---
 src/pydsm/delsig/_clans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 8a86af3..c10729f 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -194,7 +194,9 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         s = (z-1)/(z+1)
         coeffs = np.poly(s).real
         wn = np.sqrt(coeffs[2])
-        zeta = coeffs[1]/(2*wn)
+        # zeta cannot be negative: rounding errors may make it so when the
+        # poles lie on the boundary
+        zeta = max(coeffs[1]/(2*wn), 0) if wn > 0 else 0
         x[i] = np.sqrt(zeta)
         x[i+1] = np.sqrt(wn)
 
-- 
2.43.0


From c807c7ee8a00a321ebe643b97aef55bf2f241a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:32 +0000
Subject: [PATCH 42/48] fix: FIR NTF designs of order 1 failed with the
 cvxpy_old and picos backends

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py       | 8 ++++----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py           | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py | 5 +++--
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py     | 2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..b2f9055 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -70,7 +70,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
 
     # Set up the problem
     bands = len(f0s)
-    c = cvxpy_tdr.variable(1, order)
+    c = cvxpy_tdr.arrays.cvxpy_var(1, order)
     F = []
     gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
 
@@ -79,8 +79,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         osr = osrs[idx]
         omega0 = 2*f0*np.pi
         Omega = 1./osr*np.pi
-        P = cvxpy_tdr.variable(order, order, 'symmetric')
-        Q = cvxpy_tdr.variable(order, order, 'symmetric')
+        P = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
+        Q = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         if f0 == 0:
             # Lowpass modulator
             M1 = A.T*P*A+Q*A+A.T*Q-P-2*Q*np.cos(Omega)
@@ -128,7 +128,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
-        R = cvxpy_tdr.variable(order, order, 'symmetric')
+        R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         F += [cvxpy_tdr.belongs(R, cvxpy_tdr.semidefinite_cone)]
         MM = cvxpy_tdr.vstack(
             (cvxpy_tdr.hstack((A.T*R*A-R, A.T*R*B, c.T)),
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 83868d2..395e1b8 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -144,4 +144,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.ravel(c.value)[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..6b01d53 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -30,9 +30,10 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     """
     quiet = not opts['show_progress']
     order = np.size(Qs, 0)-1
-    br = cvxpy_tdr.variable(order, 1, name='br')
+    br = cvxpy_tdr.arrays.cvxpy_var(order, 1, name='br')
     b = cvxpy_tdr.vstack((1, br))
-    X = cvxpy_tdr.variable(order, order, structure='symmetric', name='X')
+    X = cvxpy_tdr.arrays.cvxpy_var(order, order, structure='symmetric',
+                                   name='X')
     Qs = cvxpy_tdr.matrix(Qs)
     target = cvxpy_tdr.norm2(Qs*b)
     A = cvxpy_tdr.matrix(A)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..da0625d 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -62,4 +62,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.ravel(br.value)))
-- 
2.43.0


From 9358f6d7e74a2b026e6a3e0bd7bc4babbf225cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 43/48] fix: slices with negative limits or step in cvxpy_tdr
 arrays

---
 src/pydsm/cvxpy_tdr/arrays.py | 76 +++++++++++++----------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..84281c5 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -27,6 +27,30 @@ if sys.version_info >= (3, 0):
 else:
     int_types = (int, long)
 
+#***********************************************************************#
+# Function definition: _slice_limits                                    #
+#***********************************************************************#
+def _slice_limits(key,size):
+    """
+    Start, stop and step of the range of indices selected by a slice.
+    As usual, negative limits count from the end of the array.
+
+    :param key: Slice.
+    :param size: Number of elements being sliced.
+    """
+    start, stop, step = key.start, key.stop, key.step
+    if step is None:
+        step = 1
+    if start is None:
+        start = 0 if step > 0 else size-1
+    elif start < 0:
+        start += size
+    if stop is None:
+        stop = size if step > 0 else -1
+    elif stop < 0:
+        stop += size
+    return [start,stop,step]
+
 #***********************************************************************#
 # Class definition: cvxpy_array                                         #
 #***********************************************************************#
@@ -131,36 +155,14 @@ class cvxpy_array(object):
         if np.isscalar(key[0]):
             sl = [key[0],key[0]+type(key[0])(1),1]
         else:
-            if key[0].start == None:
-                sl[0] = 0
-            else:
-                sl[0] = key[0].start
-            if key[0].stop == None:
-                sl[1] = self.shape[0]
-            else:
-                sl[1] = key[0].stop
-            if key[0].step == None:
-                sl[2] = 1
-            else:
-                sl[2] = key[0].step
+            sl = _slice_limits(key[0],self.shape[0])
 
         # Prepare right slices
         sr = [None,None,None]
         if np.isscalar(key[1]):
             sr = [key[1],key[1]+type(key[1])(1),1]
         else:
-            if key[1].start == None:
-                sr[0] = 0
-            else:
-                sr[0] = key[1].start
-            if key[1].stop == None:
-                sr[1] = self.shape[1]
-            else:
-                sr[1] = key[1].stop
-            if key[1].step == None:
-                sr[2] = 1
-            else:
-                sr[2] = key[1].step
+            sr = _slice_limits(key[1],self.shape[1])
 
         # Check type
         if not all(list(map(lambda x: (issubclass(type(x),int) or
@@ -923,36 +925,14 @@ class cvxpy_sparray(object):
         if np.isscalar(key[0]):
             sl = [key[0],key[0]+type(key[0])(1),1]
         else:
-            if key[0].start == None:
-                sl[0] = 0
-            else:
-                sl[0] = key[0].start
-            if key[0].stop == None:
-                sl[1] = self.shape[0]
-            else:
-                sl[1] = key[0].stop
-            if key[0].step == None:
-                sl[2] = 1
-            else:
-                sl[2] = key[0].step
+            sl = _slice_limits(key[0],self.shape[0])
 
         # Prepare right slices
         sr = [None,None,None]
         if np.isscalar(key[1]):
             sr = [key[1],key[1]+type(key[1])(1),1]
         else:
-            if key[1].start == None:
-                sr[0] = 0
-            else:
-                sr[0] = key[1].start
-            if key[1].stop == None:
-                sr[1] = self.shape[1]
-            else:
-                sr[1] = key[1].stop
-            if key[1].step == None:
-                sr[2] = 1
-            else:
-                sr[2] = key[1].step
+            sr = _slice_limits(key[1],self.shape[1])
 
         # Check type
         if not all(list(map(lambda x: (issubclass(type(x),int) or
-- 
2.43.0


From 2499738abd5c14c83feb8bfaf0e64700b5894f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 44/48] fix: creation of and operations on sparse matrices in
 cvxpy_tdr

---
 src/pydsm/cvxpy_tdr/arrays.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 84281c5..c535dba 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -682,7 +682,6 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
@@ -727,7 +726,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -736,7 +735,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -745,7 +744,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -754,7 +753,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -763,7 +762,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From a96f95271d9390c7559c46a7b8a34ae83b07108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 45/48] fix: difference of a sparse matrix and an array in
 cvxpy_tdr

---
 src/pydsm/cvxpy_tdr/arrays.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index c535dba..b665cfc 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -288,7 +288,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -302,7 +305,7 @@ class cvxpy_array(object):
                         elif action == RIGHT_ADD:
                             new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
-- 
2.43.0


From cd48f8d678ba195f145cc4271ce0dfb512db41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 46/48] fix: optimal value of cvxpy_tdr programs with a
 constant objective

---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..1c6cb3f 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -62,5 +62,9 @@ def solve_prog(p,quiet):
     else:
         obj =sol[PRIMAL_OBJECTIVE]*sign
 
+        # The solver knows nothing about a constant objective
+        if p_expanded.objective.type == CONSTANT:
+            obj = p_expanded.objective.value
+
     # Return optimal value
     return obj,valid
-- 
2.43.0


From 9c0244f6cacf75791af20c32751886414695528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 47/48] fix: inconsistent equalities make a cvxpy_tdr program
 infeasible

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..b6af7d9 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -74,10 +74,17 @@ def call_solver(p,quiet):
     solvers.options['feastol'] = p.options['feastol']
     solvers.options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
-    if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
-    else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+    try:
+        if F is None:
+            r =  solvers.conelp(c,G,h,dims,A,b)
+        else:
+            r =  solvers.cpl(c,F,G,h,dims,A,b)
+    except ValueError:
+
+        # CVXOPT rejects dependent equalities: they may be inconsistent
+        if consistent(A,b):
+            raise
+        r = {'status':PRIMAL_INFEASIBLE, PRIMAL_OBJECTIVE:None}
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
@@ -87,6 +94,20 @@ def call_solver(p,quiet):
     # Return result
     return r
 
+# Function: consistent
+def consistent(A,b):
+    """
+    Determines if the equations Ax == b have a solution.
+
+    :param A: CVXOPT matrix.
+    :param b: CVXOPT vector.
+    """
+
+    A = np.array(opt.matrix(A))
+    b = np.array(b)
+    x = np.linalg.lstsq(A,b,rcond=None)[0]
+    return np.allclose(np.dot(A,x),b)
+
 # Function: construct_c
 def construct_c(objective,mapping,n,action):
     """
-- 
2.43.0


From 6433361d3922adda7ecffc29236045581f088821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 48/48] fix: cvxpy_tdr: redundant equalities are dropped,
 contradictory ones reported

CVXOPT assumes independent equalities. Redundant ones that are not
pairwise parallel made it raise ValueError, contradictory ones could be
reported as an optimal program.
---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 46 ++++++++++++++++---
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index b6af7d9..970670b 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -21,6 +21,7 @@ import numpy as np
 import cvxopt as opt
 from .expand import expand
 from ..defs import *
+import scipy.linalg as sl
 import scipy.sparse as sp
 from cvxopt import solvers
 from ..scalars import cvxpy_obj
@@ -74,17 +75,16 @@ def call_solver(p,quiet):
     solvers.options['feastol'] = p.options['feastol']
     solvers.options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
-    try:
+    # CVXOPT assumes that the equalities are independent
+    rows = independent_rows(A)
+    if len(rows) < A.size[0] and not consistent(A,b):
+        r = {'status':PRIMAL_INFEASIBLE, PRIMAL_OBJECTIVE:None}
+    else:
+        A,b = A[rows,:],b[rows]
         if F is None:
             r =  solvers.conelp(c,G,h,dims,A,b)
         else:
             r =  solvers.cpl(c,F,G,h,dims,A,b)
-    except ValueError:
-
-        # CVXOPT rejects dependent equalities: they may be inconsistent
-        if consistent(A,b):
-            raise
-        r = {'status':PRIMAL_INFEASIBLE, PRIMAL_OBJECTIVE:None}
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
@@ -108,6 +108,38 @@ def consistent(A,b):
     x = np.linalg.lstsq(A,b,rcond=None)[0]
     return np.allclose(np.dot(A,x),b)
 
+# Function: independent_rows
+def independent_rows(A):
+    """
+    Selects a largest set of linearly independent rows.
+
+    :param A: CVXOPT matrix.
+    """
+
+    A = sp.coo_matrix((list(A.V),(list(A.I),list(A.J))),A.size).tocsr()
+
+    # Rows with a column of their own are independent of the others
+    rows = []
+    rest = np.arange(A.shape[0])
+    while True:
+        nonzero = (A[rest,:] != 0).tocsc()
+        single = np.flatnonzero(np.diff(nonzero.indptr) == 1)
+        own = np.unique(nonzero.indices[nonzero.indptr[single]])
+        if not len(own):
+            break
+        rows += rest[own].tolist()
+        rest = np.delete(rest,own)
+
+    # Others
+    if len(rest):
+        A = A[rest,:].toarray()
+        norms = np.sqrt(np.sum(A**2,1))
+        A = A/np.where(norms > 0,norms,1.)[:,np.newaxis]
+        r,p = sl.qr(A.T,mode='r',pivoting=True)
+        rank = np.sum(np.abs(np.diag(r)) > max(A.shape)*np.finfo(float).eps)
+        rows += rest[p[:rank]].tolist()
+    return sorted(rows)
+
 # Function: construct_c
 def construct_c(objective,mapping,n,action):
     """
-- 
2.43.0

