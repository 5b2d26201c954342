From 6c9398dfc55a08a86d43874436b400a6d0dae155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 01/83] fix: frequency axis of odd-sized representations

For an odd number of bins n the axis built by BaseTFRepresentation had n - 1
entries (one non-negative frequency missing), so it could not label the rows
of tfr.
---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From 12860b32ec75a17eb2faeff45e3f1dd44bf8d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 02/83] fix: run() starts from an empty representation

run() accumulated into self.tfr, which already held the transformed result of
an earlier run(), so calling run() twice on one object gave a different
(wrong) representation the second time.
---
 tftb/processing/base.py   | 3 +++
 tftb/processing/cohen.py  | 7 +++++++
 tftb/processing/linear.py | 1 +
 3 files changed, 11 insertions(+)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 009ae43..f263c5d 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -47,6 +47,9 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
+        self._reset_tfr()
+
+    def _reset_tfr(self):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
 
     def _get_spectrum(self):
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..a8b5056 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -81,6 +83,7 @@ class PseudoPageRepresentation(PageRepresentation):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) / 2
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -131,6 +135,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
@@ -149,6 +154,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        self._reset_tfr()
         tausec = round(self.n_fbins / 2.0)
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -192,6 +198,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..d19bcdd 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From 55e4ff2e8ab631f48f2c69ee4f9e1befa2ce475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 03/83] fix: renyi_information no longer modifies the caller's
 axes

timestamps was incremented in place and freq sorted in place, so the axes of
the representation object itself changed after computing its information.
---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From 5dd3a8ddd1ce1f58f49283c4651838c7b85117e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 04/83] fix: STFT and spectrogram columns are centred on their
 own instant

Left-over one-based indexing centred column t on sample t - 1 (and dropped the
last sample from every window), so every component showed up one sample late.
---
 tftb/processing/cohen.py  | 6 +++---
 tftb/processing/linear.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index a8b5056..2e58329 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -23,10 +23,10 @@ class Spectrogram(ShortTimeFourierTransform):
         self._reset_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
@@ -34,7 +34,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index d19bcdd..9c6bb06 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -59,10 +59,10 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
@@ -70,7 +70,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 4634adebbcc1ab16a6b25cd2261d0434e658786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 05/83] fix: Wigner-Ville with fewer bins than samples, or 4k+1
 bins

The branch for the largest lag indexed a one-dimensional signal with two
subscripts and could step outside the signal, so run() raised IndexError
whenever it was reached (n_fbins < len(signal), or n_fbins = 4k + 1 because
round() rounds half to even). The lag exists once, and only for an even number
of bins.
---
 tftb/processing/cohen.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2e58329..a1510ca 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -155,7 +155,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
 
     def run(self):
         self._reset_tfr()
-        tausec = round(self.n_fbins / 2.0)
+        tausec = (self.n_fbins + 1) // 2
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
@@ -167,10 +167,10 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if self.n_fbins % 2 == 0 and tausec <= icol < self.signal.shape[0] - tausec:
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From ef00202941cb206d519848ce9625f8e90334c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 06/83] fix: pseudo Wigner-Ville with windows longer than the
 lag range

The branch for the largest lag used a float index and two subscripts on a
one-dimensional signal, so run() raised IndexError for windows longer than
n_fbins; the lag loop also let lags +n/2 and -n/2 overwrite each other.
---
 tftb/processing/cohen.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index a1510ca..fab7900 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -202,19 +202,20 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins + 1) // 2 - 1, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+            tau = self.n_fbins // 2
+            if self.n_fbins % 2 == 0 and tau <= lh and \
+                    tau <= icol < self.signal.shape[0] - tau:
+                self.tfr[tau, icol] = self.fwindow[lh + tau] * \
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
+                self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return np.real(self.tfr), self.ts, self.freqs
-- 
2.43.0


From bb1cd6a384114e9f6a437b3cef2b9a2a695f0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 07/83] fix: pseudo Wigner-Ville frequency axis

The lag product x[t + tau] x*[t - tau] advances by two samples per lag, so bin
k of n is frequency k / 2n (as in WignerVilleDistribution), not k / n.
---
 tftb/processing/cohen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index fab7900..35dfd62 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -218,6 +218,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                 self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return np.real(self.tfr), self.ts, self.freqs
 
     def plot(self, **kwargs):
-- 
2.43.0


From 9dfb27bb326881a28b2a167e5bcf3aa9c0a8a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 08/83] fix: lag indexing of smoothed_pseudo_wigner_ville

Lag tau was stored in the row of lag tau + 1 with window samples of two
different other lags, the instants were centred one sample early, and the
branch for the largest lag used float indices (IndexError for windows at least
as long as freq_bins). Also count half-integers of freq_bins as
PseudoWignerVilleDistribution does.
---
 tftb/processing/cohen.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 35dfd62..d569314 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -269,40 +269,41 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
-        points = np.arange(-min([lg, signal.shape[0] - ti]),
-                           min([lg, ti - 1]) + 1).astype(int)
+        taumax = min([ti + lg, signal.shape[0] - 1 - ti + lg,
+                      (freq_bins + 1) // 2 - 1, lh])
+        points = np.arange(-min([lg, signal.shape[0] - 1 - ti]),
+                           min([lg, ti]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
-        signal_idx = (ti - points - 1).astype(int)
-        tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
+        signal_idx = (ti - points).astype(int)
+        tfr[0, icol] = fwindow[lh] * np.sum(
+            g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points - 1).astype(int)
-            idx2 = (ti - tau - points - 1).astype(int)
+            idx1 = (ti + tau - points).astype(int)
+            idx2 = (ti - tau - points).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = freq_bins // 2
+        if freq_bins % 2 == 0 and tau <= lh and tau <= ti < signal.shape[0] - tau:
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
             idx1 = (ti + tau - points).astype(int)
             idx2 = (ti - tau - points).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 42d162bf06e52cb2915c5580367720d4ba08dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 09/83] fix: Margenau-Hill includes the first sample of the
 signal

The lag tau = t, which pairs instant t with sample 0, was left out, so neither
the frequency marginal nor the energy came out right.
---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index d569314..b0a4dc8 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -103,7 +103,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 2327efe28036e272cb950eadb6d4f612b7258d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 10/83] fix: pseudo Page representation

Float window index raised IndexError on every call; lag tau was stored in row
tau + 1 and the earliest lag of each instant was skipped.
---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b0a4dc8..a35e91b 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -79,15 +79,15 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
         self._reset_tfr()
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            tau = np.arange(min([self.n_fbins - 1, lh, icol]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
                 self.signal[icol] * np.conj(self.signal[icol - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
-- 
2.43.0


From ebc8d3b0baf39fc8024b8387d030d5a6f4b83e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 11/83] fix: pseudo Margenau-Hill lags and reality

The lag product paired instant t with sample t - tau - 1, so it was not the
windowed Margenau-Hill product, and the real part was never taken.
---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index a35e91b..3a6a92b 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -139,13 +139,13 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            start = min([(self.n_fbins + 1) // 2 - 1, lh, xrow - 1 - icol])
+            end = min([(self.n_fbins + 1) // 2 - 1, lh, icol])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+                np.conj(self.signal[icol - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From ca012aa5ebe91fe5e3688451e4c5f414ae599e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 12/83] fix: default windows of the reassigned distributions

scipy.signal.hamming no longer exists and a float length was passed, so every
reassigned distribution raised when called without an explicit window.
---
 tftb/processing/reassigned.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..c66df50 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -38,7 +38,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(int(hlength))
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) // 2
@@ -119,7 +119,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -194,7 +194,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -385,7 +385,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -393,7 +393,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lg = (twindow.shape[0] - 1) / 2
@@ -493,7 +493,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     if window is None:
         wlength = int(np.floor(signal.shape[0] / 4.0))
         wlength += 1 - np.remainder(wlength, 2)
-        window = ssig.hamming(wlength)
+        window = ssig.windows.hamming(int(wlength))
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
@@ -553,7 +553,7 @@ if __name__ == '__main__':
     import matplotlib.pyplot as plt
     ts = np.arange(128, step=2)
     sig = fmlin(128, 0.1, 0.4)[0]
-    fwindow = ssig.kaiser(17, beta=3 * np.pi)
+    fwindow = ssig.windows.kaiser(17, beta=3 * np.pi)
     _, rtfr, _ = pseudo_wigner_ville(sig, timestamps=ts, n_fbins=64,
                                      fwindow=fwindow)
     rtfr = np.abs(rtfr) ** 2
-- 
2.43.0


From 6a3a7449ec16bb7fd636af8bb06e19f29849dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 13/83] fix: centring of the reassigned spectrogram

One-based left-overs: column t was centred on sample t - 1 (column 0 read the
last sample of the signal), reassigned energy landed one bin below where the
reassignment vector points, and vectors were clamped to [1, T] instead of
[0, T - 1].
---
 tftb/processing/reassigned.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index c66df50..ca95cc2 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -508,12 +508,12 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         ti = time_samples[icol]
         tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
                         np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+                                signal.shape[0] - 1 - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
@@ -531,16 +531,16 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([np.real(icolhat), 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From a1f60b482cd74384099b60ccb7d2ef29f0360752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 14/83] fix: reassigned spectrogram of decimated time instants

The time displacement is in samples but was added to a column index; with
instants dt samples apart energy moved dt times too far.
---
 tftb/processing/reassigned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index ca95cc2..f009a66 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -520,7 +520,8 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask]))
+    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
+    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
 
-- 
2.43.0


From fcddcf432d36d0abbfe70a1678492e9406caf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 15/83] fix: centring of the reassigned pseudo Wigner-Ville
 distribution

Same one-based left-overs as in the reassigned spectrogram: column t was
centred on sample t - 1, energy landed one bin below the bin given by the
reassignment vector, and the largest-lag branch used float indices.
---
 tftb/processing/reassigned.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index f009a66..f60cb97 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -49,21 +49,21 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti, xrow - 1 - ti, (n_fbins + 1) // 2 - 1, lh])
         tau = np.arange(-taumax, taumax + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tau = n_fbins // 2
+        if n_fbins % 2 == 0 and tau <= lh and tau <= ti < xrow - tau:
+            _x = fwindow[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = fwindow[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = dh[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 8b04e80d29b53f94bc8e7faac83a893ec402f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 16/83] fix: reassigned pseudo Margenau-Hill distribution

Float indices raised on every call; with those corrected the column was still
centred one sample early and the displacement mixed real and imaginary parts.
---
 tftb/processing/reassigned.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index f60cb97..9b59924 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -121,7 +121,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -130,24 +130,22 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
         ti = timestamps[icol]
-        start = min([np.round(n_fbins / 2.0) - 1, lh, xrow - ti])
-        end = min([np.round(n_fbins / 2.0) - 1, lh, ti - 1])
+        start = min([(n_fbins + 1) // 2 - 1, lh, xrow - 1 - ti])
+        end = min([(n_fbins + 1) // 2 - 1, lh, ti])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
-        tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices, icol] = dh[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
 
-    tfr = np.fft.fft(tfr, axis=0)
-    tf2 = np.fft.fft(tf2, axis=0)
+    tfr = np.real(np.fft.fft(tfr, axis=0))
+    tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
     tf2 = tf2.ravel()
     no_warn_mask = tfr != 0
     tf2[no_warn_mask] *= n_fbins / tfr[no_warn_mask] / (2 * np.pi)
     tf2[no_warn_mask] = np.round(tf2[no_warn_mask])
-    tfr = np.real(tfr)
-    tf2 = np.imag(tf2)
     tfr = tfr.reshape(n_fbins, tcol)
     tf2 = tf2.reshape(n_fbins, tcol)
 
@@ -157,10 +155,8 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = (jcol - int(tf2[jcol, icol])) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From e20ea9810c1665376dbf1ba21bcf132f4dbe57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 17/83] fix: reassigned pseudo Page representation

Float indices raised on every call; lags were stored one row too far and the
time instants were ignored.
---
 tftb/processing/reassigned.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 9b59924..5110bc7 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -192,7 +192,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -200,23 +200,21 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol - 1]) + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[0, icol] += signal[icol] * np.conj(signal[icol])
-
-    tfr = np.fft.fft(tfr, axis=0)
-    tf2 = np.fft.fft(tf2, axis=0)
+        ti = timestamps[icol]
+        tau = np.arange(min([n_fbins - 1, lh, ti]) + 1)
+        tfr[tau, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[tau, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[0, icol] += signal[ti] * np.conj(signal[ti])
+
+    tfr = np.real(np.fft.fft(tfr, axis=0))
+    tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
     tf2 = tf2.ravel()
     no_warn_mask = tfr != 0
     tf2[no_warn_mask] *= n_fbins / tfr[no_warn_mask] / (2 * np.pi)
     tf2[no_warn_mask] = np.round(tf2[no_warn_mask])
-    tfr = np.real(tfr)
-    tf2 = np.imag(tf2)
     tfr = tfr.reshape(n_fbins, tcol)
     tf2 = tf2.reshape(n_fbins, tcol)
 
@@ -226,10 +224,8 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = (jcol - int(tf2[jcol, icol])) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 6cf14bdebdc2f70eda64c3fdf89e5778fc6df2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 18/83] fix: reassigned smoothed pseudo Wigner-Ville
 distribution

Float indices raised on every call; lags were stored in the wrong rows and the
energy was never moved to the reassigned point.
---
 tftb/processing/reassigned.py | 41 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 5110bc7..0ea5b51 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -379,7 +379,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
@@ -387,7 +387,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
@@ -403,30 +403,29 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
-                      lh])
-        points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
+        taumax = min([ti + lg, xrow - 1 - ti + lg, (n_fbins + 1) // 2 - 1, lh])
+        points = np.arange(-min([lg, xrow - 1 - ti]), min([lg, ti]) + 1)
         g2 = twindow[lg + points]
         g2 = g2 / g2.sum()
         tg2 = g2 * points
-        xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
-        tfr[0, icol] = (g2 * xx).sum()
-        tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
-
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, xrow - ti - tau]),
-                               min([lg, ti - tau - 1]) + 1)
+        xx = signal[ti - points] * np.conj(signal[ti - points])
+        tfr[0, icol] = (g2 * xx).sum() * fwindow[lh]
+        tf2[0, icol] = (tg2 * xx).sum() * fwindow[lh]
+        tf3[0, icol] = dh[lh] * (g2 * xx).sum()
+
+        for tau in range(1, taumax + 1):
+            points = np.arange(-min([lg, xrow - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             g2 = twindow[lg + points]
             g2 = g2 / g2.sum()
             tg2 = g2 * points
-            xx = signal[ti + tau - 1 - points] * np.conj(signal[ti - tau - 1 - points])
+            xx = signal[ti + tau - points] * np.conj(signal[ti - tau - points])
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -446,10 +445,10 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
-                jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                icolhat = int(np.real(icol - tf2[jcol, icol]))
+                icolhat = min([max([icolhat, 0]), tcol - 1])
+                jcolhat = (jcol - int(tf3[jcol, icol])) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From e95fe500484c94c173493b54141e1f33b7539e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 19/83] fix: reassigned Morlet scalogram

Float indices raised on every call; one-based left-overs read the sample before
the analysed instant (wrapping around at the start of the signal).
---
 tftb/processing/reassigned.py | 72 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 0ea5b51..c76d92c 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -263,33 +263,33 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     tf2 = np.zeros((n_fbins, tcol), dtype=complex)
-    M = np.ceil(tbp * n_fbins * np.sqrt(2 * np.log(1 / k)))
+    M = int(np.ceil(tbp * n_fbins * np.sqrt(2 * np.log(1 / k))))
     tau = np.arange(M + int(np.round(n_fbins / 2)) + 1)
     hstar = np.exp(-(tau / (n_fbins * tbp)) ** 2 / 2.0) * \
         np.exp(-1j * 2 * np.pi * tau / n_fbins)
     thstar = tau * hstar
 
-    for m in range(1, n_fbins // 2):
+    for m in range(1, (n_fbins + 1) // 2):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
             ti = timestamps[icol]
-            tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
             # positive frequencies
-            tfr[m, icol] = np.dot(hstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
-            tf2[m, icol] = np.dot(thstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
+            tfr[m, icol] = np.dot(hstar[m * tau_pos],
+                                  signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos],
+                                  signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
                                        signal[ti - tau_neg])
                 tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
                                        signal[ti - tau_neg])
             # negative frequencies
-            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
-            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
+            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
+            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[n_fbins - m, icol] += np.dot(hstar[tau_neg * m],
                                                  signal[ti - tau_neg])
@@ -300,24 +300,22 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         tfr[n_fbins - m, :] *= factor
         tf2[n_fbins - m, :] *= factor / m
 
-    m = int(np.round(n_fbins / 2.0))
-    factor = np.sqrt(m / (tbp * n_fbins))
-    for icol in range(tcol):
-        ti = timestamps[icol]
-        tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
-        tau_pos -= 1
-        tau_neg -= 1
-
-        tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
-        tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
-        if tau_neg.shape[0] > 0:
-            tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
-            tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
-    tfr[m, :] *= factor
-    tf2[m, :] *= factor / m
+    if n_fbins % 2 == 0:
+        m = n_fbins // 2
+        factor = np.sqrt(m / (tbp * n_fbins))
+        for icol in range(tcol):
+            ti = timestamps[icol]
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
+            tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
+            if tau_neg.shape[0] > 0:
+                tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
+                                       signal[ti - tau_neg])
+                tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
+                                       signal[ti - tau_neg])
+        tfr[m, :] *= factor
+        tf2[m, :] *= factor / m
 
     tfr, tf2 = tfr.ravel(), tf2.ravel()
     no_warn_mask = tfr != 0
@@ -333,14 +331,12 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if tfr[jcol, icol] > threshold:
-                icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))
-                icolhat = min([max([icolhat, 1]), tcol])
-                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 2,
-                                 n_fbins)
-                m -= np.round(n_fbins / 2.0) + 1
-                jcolhat = jcol + np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor))
-                jcolhat = ((((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins) + 1
-                rtfr[jcolhat - 1, icolhat - 1] += tfr[jcol, icol]
+                icolhat = icol + int(np.round(np.real(tf2[jcol, icol] / dt)))
+                icolhat = min([max([icolhat, 0]), tcol - 1])
+                m = (jcol + n_fbins // 2 - 1) % n_fbins - n_fbins // 2 + 1
+                jcolhat = jcol + int(np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor)))
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 165057565e18b507fb7ee4571538d2c9dd7a6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 20/83] fix: default number of voices of narrow-band affine
 distributions

self.T was only set when the equivalent duration is short, so for a narrow band
the constructor raised AttributeError unless n_voices was given.
---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..80f0a7c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -35,6 +35,7 @@ class AffineDistribution(BaseTFRepresentation):
         self.s1 = np.real(self.x1)
         self.s2 = np.real(self.x2)
         self.m = (self.signal.shape[0] + (self.signal.shape[0] % 2)) // 2
+        self.T = self.signal.shape[0] - 1
         if (fmin is None) or (fmax is None):
             stf1 = np.fft.fft(
                 np.fft.fftshift(self.s1[self.ts.min(): self.ts.max() + 1])
-- 
2.43.0


From c3c634caaddf45cd6cbd33c7b50e53d613717539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 21/83] fix: number of dilation samples in affine distributions

int((umax - umin) / du) can come out one short through rounding, which made
run() raise IndexError for some signal lengths and bands.
---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 80f0a7c..626b21d 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -101,7 +101,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From 0547b2b4945d9419988433bfc51382b47e7d47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 22/83] fix: passive form of the Unterberger distribution

The weight was looked up one dilation too far, so form != 'A' always raised
IndexError on the last dilation.
---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 626b21d..f756704 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -297,7 +297,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From 906e9d4021f2c733cbdd34e882103c65fb6b602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 23/83] fix: Scalogram with n_voices different from the signal
 length

The result was stored in an array with one row per frequency bin instead of
one row per voice, so run() raised for any other number of voices.
---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index f756704..355dd0e 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -171,7 +171,6 @@ class Scalogram(AffineDistribution):
         self.waveparams = waveparams
         s_centered = np.real(self.signal) - np.real(self.signal).mean()
         self.z = hilbert(s_centered)
-        self.tfr = self.tfr.astype(complex)
 
     def run(self):
         f = np.logspace(np.log10(self.fmin), np.log10(self.fmax), self.n_voices)
@@ -179,6 +178,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
-- 
2.43.0


From 870462d1fad7770ef9aae8223a0487d83457af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 24/83] fix: wavelet transform returned by the Morlet scalogram

The coefficients were read before the convolution was trimmed, so wt was
delayed by half a wavelet with respect to the scalogram and its time axis.
---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 355dd0e..5904df9 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -192,8 +192,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
-- 
2.43.0


From 75e3b79d624ebe58f81613a9b9b11375cda88a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 25/83] fix: Mexican-hat scalogram is aligned with its time
 axis

One-based left-over: every coefficient was read one sample late.
---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5904df9..491b45f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -201,7 +201,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha))
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From f6b43734a12dd72d468bae7ca321969a99e39dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 26/83] fix: locfreq for odd-length signals

The frequency axis had the wrong number of entries for lengths 4k + 1
(ValueError) and one wrong entry for 4k + 3.
---
 tftb/processing/freq_domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..c2bf0d9 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,10 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
-    no2f = np.floor(signal.shape[0] / 2.0)
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.fft.fftfreq(signal.shape[0])
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From c951cb8c71bfbc70932f3c9b5390452851d38158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 27/83] fix: loctime accepts row and column vectors

The flattening branch was never taken, so an (n, 1) signal gave the moments of
an outer product.
---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..b6afb1d 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -18,7 +18,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From e5dfddde46ea9c14a0d9f83d9459ae32fa8a41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 28/83] fix: phase of fmpar is the integral of its frequency
 law

The exponents applied to the coefficients too, so the signal did not follow
the returned law.
---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..43784cc 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -166,7 +166,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From b14b2d98f59720b4f2a4fc3b515b2fd474a29282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 29/83] fix: fmconst has unit modulus for every time centre

Dividing by the real part of one sample scaled the signal for fractional t0 and
raised IndexError for t0 = n_points.
---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 43784cc..918018e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From 3d66c4b1966afd3bbd8e125687f306c5d37b4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 30/83] fix: fmodany has zero phase at t0

t0 is one-based (1 .. len(iflaw)), but was used as a zero-based index:
t0 = len(iflaw) raised IndexError.
---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 918018e..e87256e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -143,7 +143,7 @@ def fmodany(iflaw, t0=1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[int(t0) - 1])
     return y
 
 
-- 
2.43.0


From ad5f582e0bc9d8210d0758da9da0c5eab8b54b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 31/83] fix: fmpower starts at time 1

As in fmhyp; at time 0 the law c * t ** -k is infinite and the first sample was
NaN.
---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index e87256e..c01232e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 867d988e92a47ea387840ddf092d8eda6581aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 32/83] fix: reference phase of fmsin

Misplaced parenthesis: the signal did not have zero phase at t0.
---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index c01232e..1f60d4e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
+                                                     np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From 5590d3ccfc69f3177a92aaada93ec2f40295b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 33/83] fix: anafsk returns n_points samples

The last symbol was not cut when n_comp does not divide n_points.
---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..c7929e2 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
-- 
2.43.0


From 4f63a41966d90b4dd2dd610beafd645dd9792388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 34/83] fix: anaqpsk with n_comp not dividing n_points

The symbol sequence was not cut to n_points, so the addition raised.
---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index c7929e2..39a9bbe 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From 49d96bde2c10d3511fac9078a81efb0f02001222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 35/83] fix: anasing grid size

int(end / start) comes out one short through rounding for some lengths (40,
104, 122, ...), which raised ValueError.
---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 39a9bbe..ffbcb86 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -169,7 +169,7 @@ def anasing(n_points, t0=None, h=0.0):
         t0 = n_points / 2.0
     if h <= 0:
         start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
+        N = int(n_points / 2) - 1
         f = np.linspace(start, end, N)
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
-- 
2.43.0


From 37bab7e240a02d02ee1f3a990c9c43e8df4cb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 36/83] fix: noise of one or two samples

noisecg raised TypeError (float dimensions) and noisecu returned an (n, 1)
array.
---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From 5524814745145bafd191e087442c599f43a1e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 37/83] fix: dopnoise returns n_points samples

The slice started one sample late and ran past the end.
---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..4732250 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From 80d370f8ad395ca9dc2586c71a5850bee603372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 38/83] fix: atoms with a single coordinate row

A one-dimensional coordinate vector was turned into a column, so it raised
IndexError.
---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..0ba89c0 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From 511cb27fd584618f5aabc4a886e4675f8d21edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:02 +0000
Subject: [PATCH 39/83] fix: group delay of gdpower for degree 1

Float dimension raised TypeError.
---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 0ba89c0..b968da6 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -229,7 +229,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From d21ea448e5e4968c0b630c1b80ffcca7568572f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 40/83] fix: rho axis of hough_transform

The transform has m rows, the axis had n entries.
---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 030490bc9a7c1caad2da3870d40ff3b34a6ca6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 41/83] fix: gabor with oversampling

The Zak transform has nb columns, not mb; any q_oversample with nb != mb
raised ValueError.
---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 9c6bb06..36ab5c3 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -141,7 +141,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
 
     msig = hn1.reshape(int(nb), int(m), order='F')
     dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
+    mzh = np.zeros((m, nb))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
         mod = modulo(x - l * m / q_oversample, m).astype(int)
-- 
2.43.0


From 910b5c7533887dbb5762cd72444c4cdfc46a42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 42/83] fix: gdpower of degree 1 is an impulse at the last
 sample

One-based left-over: the impulse fell outside the signal, which came out as
NaN.
---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index b968da6..eeeed7f 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -215,7 +215,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
         t0 = n_points
-        x = anapulse(n_points, t0)
+        x = anapulse(n_points, t0 - 1)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
         tfx[:lnu] = np.exp(-1.0j * 2.0 * pi * (t0 * nu + d * nu ** degree / degree)) * am
-- 
2.43.0


From 4d7e3bf4dfbe0670b03ed71c41a80ba9da3ab2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 43/83] fix: ridges collects the points of every column

Each column overwrote the previous ones, the energy threshold was passed as
the output argument of logical_and, and a representation without ridge points
raised UnboundLocalError.
---
 tftb/processing/postprocessing.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index ff51719..892d67f 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -185,37 +185,38 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
     freqs = np.arange(n_fbins)
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
 
+    time_points, freq_points = [np.zeros((0,))], [np.zeros((0,))]
     if method in ('rpwv', 'rpmh'):
         for icol in range(tfrcol):
             ti = timestamps[icol]
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points.append(np.ones((indices.sum(),)) * ti)
+                freq_points.append(np.arange(indices.shape[0])[indices] / (2.0 * n_fbins))
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points.append(np.ones((indices.sum(),)) * ti)
+                freq_points.append(np.arange(indices.shape[0])[indices] / (2.0 * n_fbins))
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points.append(np.ones((indices.sum(),)) * ti)
+                freq_points.append(np.arange(indices.shape[0])[indices] / n_fbins)
     else:
         raise ValueError("Unknown time frequency representation.")
-    return time_points, freq_points
+    return np.concatenate(time_points), np.concatenate(freq_points)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 4b11ae7ded9ffbce8b89923e82314214820774ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 44/83] fix: fmodany checks the range of column-vector laws too

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 1f60d4e..f0ea5a2 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,7 +136,7 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
     if (t0 > iflaw.shape[0]) or (t0 == 0):
-- 
2.43.0


From b318fce6ffa68c64c8f2369ebaaf5dd33b72e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 45/83] fix: plotting does not change the representation

plot() cut, squared and thresholded self.tfr and self.freqs in place, so the
object and the array already returned by run() changed, and a second plot()
cut and squared again. PageRepresentation.plot() sliced with a float.
---
 tftb/processing/affine.py |  3 ++-
 tftb/processing/base.py   | 16 ++++++++++++++++
 tftb/processing/cohen.py  |  7 +++++--
 tftb/processing/linear.py |  3 ++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 491b45f..0a983a6 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -16,7 +16,7 @@ from scipy.optimize import brenth, newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, display_only
 from tftb.utils import nextpow2
 
 
@@ -107,6 +107,7 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    @display_only
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index f263c5d..4735693 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -10,11 +10,27 @@
 Base time-frequency representation class.
 """
 
+from functools import wraps
+
 import numpy as np
 from scipy.signal.windows import hamming
 import matplotlib.pyplot as plt
 
 
+def display_only(plot):
+    """Let a plot method rework ``tfr`` and ``freqs`` for display, and put the
+    computed ones back afterwards."""
+    @wraps(plot)
+    def wrapper(self, *args, **kwargs):
+        tfr, freqs = self.tfr, self.freqs
+        self.tfr = tfr.copy()
+        try:
+            return plot(self, *args, **kwargs)
+        finally:
+            self.tfr, self.freqs = tfr, freqs
+    return wrapper
+
+
 class BaseTFRepresentation(object):
 
     isaffine = False
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 3a6a92b..df25cdc 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Cohen’s Class.
 
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, display_only
 
 
 class Spectrogram(ShortTimeFourierTransform):
@@ -61,8 +61,9 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
+    @display_only
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
@@ -111,6 +112,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
+    @display_only
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         if sqmod:
@@ -176,6 +178,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return self.tfr, self.ts, self.freqs
 
+    @display_only
     def plot(self, kind='cmap', threshold=0.05, sqmod=False, **kwargs):
         scale = kwargs.pop("scale", "linear")
         if scale == "log":
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 36ab5c3..bda07ea 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -11,7 +11,7 @@ Linear Time Frequency Processing.
 """
 
 import numpy as np
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, display_only
 from tftb.utils import nearest_odd, divider, modulo, izak
 
 
@@ -75,6 +75,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
 
+    @display_only
     def plot(self, ax=None, kind='cmap', sqmod=True, threshold=0.05, **kwargs):
         """Display the spectrogram of an STFT.
 
-- 
2.43.0


From 2186d5c5fd08de997e2c979f00294bd4698cc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 46/83] fix: grids of surface, wireframe and contour plots

The grid had one row per signal sample instead of one per row of the
representation being shown, so these plots raised for half-band
representations and for n_fbins != len(signal).
---
 tftb/processing/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 4735693..4092c72 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -102,7 +102,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
@@ -220,8 +220,8 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D
                 fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = np.arange(self.tfr.shape[1])
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -229,8 +229,8 @@ class BaseTFRepresentation(object):
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = np.arange(self.tfr.shape[1])
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
-- 
2.43.0


From 1b2e7076920e26f7811ed781f9141973ba842186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:30 +0000
Subject: [PATCH 47/83] fix: plot() draws on the axes it is given

The documented ax argument was ignored.
---
 tftb/processing/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 4092c72..a811a5d 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -210,15 +210,17 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None or kind in ("surf", "wireframe"):
+                fig = plt.figure()
+                ax = None
             if kind == "cmap":
-                ax = fig.add_subplot(111)
+                if ax is None:
+                    ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
                 from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.tfr.shape[1])
                 y = np.linspace(0, 0.5, self.tfr.shape[0])
@@ -236,7 +238,8 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
+                if ax is None:
+                    ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From abe3b99eb80b295928bc64e64f2dbc6f6633315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:03 +0000
Subject: [PATCH 48/83] fix: default band of wide_band comes from the spectrum

The Fourier transform was missing, so the band was estimated from the time
samples.
---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index ea9f52d..6c53550 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -35,7 +35,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
 
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
-        STF = np.fft.fftshift(s_ana)
+        STF = np.fft.fft(np.fft.fftshift(s_ana))
         sp = np.abs(STF[:m]) ** 2
         maxsp = np.amax(sp)
         f = np.linspace(0, 0.5, m + 1)
-- 
2.43.0


From c2a682b8b6d1c844bbdbf86bb2b44e187cd469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 49/83] fix: klauder of odd length returns n_points samples

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index eeeed7f..2b71ad5 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -141,11 +141,11 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     assert n_points > 0
     assert ((f0 < 0.5) and (f0 > 0))
 
-    f = np.linspace(0., 0.5, int(n_points / 2 + 1))
+    f = np.arange(n_points // 2 + 1) / n_points
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
+    a, b = wave[:(n_points + 1) // 2], wave[1:(n_points // 2 + 1)][::-1]
     wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
-- 
2.43.0


From 97194cdc38e7684337b4346d4a815711541bf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 50/83] fix: anafsk and anaqpsk accept a float n_comp

As their documented examples do.
---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index ffbcb86..1338d32 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
+    iflaw = np.repeat(freqs, int(n_comp)).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
+    pm0 = (np.pi * np.repeat(jumps, int(n_comp)) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From 9ca6936f7e7f26a3d4aab599bf215ca4901d77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:21 +0000
Subject: [PATCH 51/83] fix: nextpow2 of arrays

Documented, but math.log2 only takes scalars.
---
 tftb/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..b442f3c 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -56,6 +56,8 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
+    if isinstance(n, np.ndarray):
+        return np.ceil(np.log2(n))
     return math.ceil(math.log2(n))
 
 
-- 
2.43.0


From 823098da03361e71eb108efccf09f05321636508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:27 +0000
Subject: [PATCH 52/83] fix: izak of one-dimensional input

---
 tftb/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index b442f3c..0042330 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -36,6 +36,7 @@ def izak(x):
         n, m = x.shape
     else:
         n, m = x.shape[0], 1
+        x = x.reshape(n, m)
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From 4b148b87762de8af6a7ca3ec8617015779ae5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:33 +0000
Subject: [PATCH 53/83] fix: scale() for signals of any length

Shapes were hard-coded to 128 samples and sizes were floats, so every call
raised; the analysed band also started one voice below fmin.
---
 tftb/generators/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 7ecea4c..bb285e1 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -45,7 +45,7 @@ def scale(X, a, fmin, fmax, N):
     """
     Z = hilbert(np.real(X))
     T = X.shape[0]
-    M = (T + np.remainder(T, 2)) / 2
+    M = (T + T % 2) // 2
 
     # B = fmax - fmin
     # R = B / ((fmin + fmax) / 2)
@@ -54,11 +54,11 @@ def scale(X, a, fmin, fmax, N):
     # Ndflt = 2 ** nextpow2(Nmin)
 
     # Geometric sampling of the analyzed spectrum
-    k = np.arange(N)
+    k = np.arange(1, N + 1)
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
     geo_f = fmin * np.exp((k - 1) * np.log(q))
-    t = np.arange(X.shape[0]) - M - 1
-    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(128, 1), geo_f.reshape(1, 128)) * np.pi)
+    t = np.arange(X.shape[0]) - M
+    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(-1, 1), geo_f.reshape(1, -1)) * np.pi)
     ZS = np.dot(Z, tfmatx)
     ZS = np.hstack((ZS, np.zeros((N,))))
 
@@ -68,7 +68,7 @@ def scale(X, a, fmin, fmax, N):
     beta = (p / float(N) - 1.0) / (2 * np.log(q))
 
     # Inverse mellin and fourier transform.
-    Mmax = np.amax(np.ceil(X.shape[0] / 2.0 * a))
+    Mmax = int(np.amax(np.ceil(X.shape[0] / 2.0 * a)))
     if isinstance(a, np.ndarray):
         S = np.zeros((2 * Mmax, a.shape[0]), dtype=complex)
     else:
@@ -76,10 +76,10 @@ def scale(X, a, fmin, fmax, N):
         ptr = 0
         DMS = np.exp(-2 * np.pi * 1j * beta * np.log(a)) * MS
         DS = np.fft.fft(np.fft.fftshift(DMS), axis=0)
-        Mcurrent = np.ceil(a * X.shape[0] / 2)
-        t = np.arange(-Mcurrent, Mcurrent) - 1
-        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((256, 1)),
-                                                 geo_f.reshape((1, 128))))
+        Mcurrent = int(np.ceil(X.shape[0] / 2.0 * a))
+        t = np.arange(-Mcurrent, Mcurrent)
+        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((-1, 1)),
+                                                 geo_f.reshape((1, -1))))
         dilate_sig = np.zeros((2 * Mcurrent,), dtype=complex)
         for kk in range(2 * int(Mcurrent)):
             dilate_sig[kk] = trapezoid(itfmatx[kk, :] * DS[:N], geo_f)
-- 
2.43.0


From b424b4a199b2f38f214243aa61decc7ee856648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 54/83] fix: fmsin referenced to one of its extreme frequencies

Rounding could push the cosine just beyond 1, making the whole signal NaN.
---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index f0ea5a2..73190f2 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -250,7 +250,7 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
 
     fnormid = 0.5 * (fnormax + fnormin)
     delta = 0.5 * (fnormax - fnormin)
-    phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
+    phi = -pm1 * np.arccos(np.clip((fnorm0 - fnormid) / delta, -1.0, 1.0))
     t = np.arange(n_points) - t0
     phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
                                                      np.sin(phi))
-- 
2.43.0


From ffc0b2737a0cc8aac398f7cd6e01ce830a3e5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 55/83] fix: gdpower's rate multiplies the power-law
 coefficient

For degrees below one the rate was an exponent of the number of points
instead of the coefficient of the group delay law it is documented to be
(and is for every other degree), so a negative rate gave a rising law.
---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 2b71ad5..31effe3 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -203,7 +203,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     tfx = np.zeros((n_points,), dtype=complex)
 
     if (degree < 1.) and (degree != 0):
-        d = float(n_points) ** (degree * rate)
+        d = float(n_points) ** degree * rate
         t0 = n_points / 10.0
         tfx[:lnu] = np.exp(-1.0j * 2. * pi * (t0 * nu + d * nu ** degree / degree)) * am
         x = np.fft.ifft(tfx)
-- 
2.43.0


From 74c0a8ab310399da38f621cb7509cfcf5f4de960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:59 +0000
Subject: [PATCH 56/83] fix: derive_window removes the line through the
 window's end points

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..1ba973a 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From eedde2e5848b8a915c489f586afed324de246906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:48 +0000
Subject: [PATCH 57/83] fix: affine plots draw the spectrum on its own
 frequency axis, whatever the number of voices

---
 tftb/processing/affine.py | 6 +++---
 tftb/processing/base.py   | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0a983a6..1a5478e 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -111,9 +111,9 @@ class AffineDistribution(BaseTFRepresentation):
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
+        freq_y = kwargs.pop("freq_y", None)
+        if freq_y is None and not self.isaffine:
+            freq_y = np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
 
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index a811a5d..af745a2 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -137,17 +137,19 @@ class BaseTFRepresentation(object):
     def _plot_spectrum(self, ax, freq_x, freq_y):
         k = int(np.floor(self.signal.shape[0] / 2.0))
         if freq_x is None:
-            freq_x = self._get_spectrum()[::-1][:k]
+            freq_x = self._get_spectrum()
+            if not self.isaffine:
+                freq_x = freq_x[::-1][:k]
         if freq_y is None:
             if self.isaffine:
-                freq_y = self.freqs
+                freq_y = np.arange(len(freq_x)) / (2.0 * len(freq_x))
             else:
                 freq_y = np.arange(k)
         ax.plot(freq_x, freq_y)
         if not self.isaffine:
             ax.set_ylim(0, freq_y.shape[0] - 1)
         else:
-            ax.set_ylim(freq_y[0], freq_y[-1])
+            ax.set_ylim(self.fmin, self.fmax)
 
     def _annotate_spectrum(self, ax):
         ax.set_ylabel('Spectrum')
-- 
2.43.0


From 9798cd07e1a753210e7c0c959f49a62631b7301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 58/83] fix: Page plots label the half of the frequencies they
 show, and honour sqmod

---
 tftb/processing/cohen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index df25cdc..ad8ad68 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -63,8 +63,10 @@ class PageRepresentation(BaseTFRepresentation):
 
     @display_only
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
+        self.freqs = self.freqs[:(self.tfr.shape[0] // 2)]
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
-        self.tfr = np.abs(self.tfr) ** 2
+        if sqmod:
+            self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         super(PageRepresentation, self).plot(kind=kind, **kwargs)
-- 
2.43.0


From e11613d93e49ca73ff46411b9711f479f48392dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 59/83] fix: a scalogram's frequency axis is that of its voices

---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 1a5478e..e3363c5 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -250,6 +250,7 @@ class Scalogram(AffineDistribution):
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
+        self.freqs = f
         return self.tfr, self.ts, f, wt
 
 
-- 
2.43.0


From 53b91d2d2c9a6425773462463b8a98ed9be70bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 60/83] fix: Margenau-Hill plots start at the first instant and
 accept an extent

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ad8ad68..37fd931 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -121,7 +121,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
+        extent = kwargs.pop('extent', [self.ts.min(), self.ts.max(), 0, 0.5])
         super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
 
 
-- 
2.43.0


From 42d3782d07a1ee8599a7482aab2c48893bd6d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 61/83] fix: fmodany refuses every reference instant below 1

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 73190f2..6d40eea 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -139,7 +139,7 @@ def fmodany(iflaw, t0=1):
     if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-- 
2.43.0


From 23906406f3025c51ea228391f656b3b9f3b881f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 62/83] fix: doppler's amplitude modulator has n_points values
 at zero frequency too

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 31effe3..64dd1cc 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -113,7 +113,7 @@ def doppler(n_points, s_freq, f0, distance, v_target, t0=None, v_wave=340.0):
     dist = np.sqrt(distance ** 2 + (v_target * tmt0) ** 2)
     fm = np.exp(1j * 2 * pi * f0 * (tmt0 - dist / v_wave))
     if np.abs(f0) < np.spacing(1):
-        am = 0
+        am = np.zeros(n_points)
     else:
         am = 1. / np.sqrt(dist)
     iflaw = (1 - v_target ** 2 * tmt0 / dist / v_wave) * f0 / s_freq
-- 
2.43.0


From c044960fdf225735a7ac2a8fd917908485474804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:36 +0000
Subject: [PATCH 63/83] fix: reassigned Morlet scalogram takes the right
 frequency for the middle row of an odd number of bins

---
 tftb/processing/reassigned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index c76d92c..e42ee9d 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -333,7 +333,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
             if tfr[jcol, icol] > threshold:
                 icolhat = icol + int(np.round(np.real(tf2[jcol, icol] / dt)))
                 icolhat = min([max([icolhat, 0]), tcol - 1])
-                m = (jcol + n_fbins // 2 - 1) % n_fbins - n_fbins // 2 + 1
+                m = (jcol + (n_fbins - 1) // 2) % n_fbins - (n_fbins - 1) // 2
                 jcolhat = jcol + int(np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor)))
                 jcolhat = jcolhat % n_fbins
                 rtfr[jcolhat, icolhat] += tfr[jcol, icol]
-- 
2.43.0


From 27ac46fa86c8c9eefdb582d389d0a0d496938431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 64/83] fix: gabor's dual window is biorthogonal for every
 lattice, not only square ones

---
 tftb/processing/linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index bda07ea..80a5db1 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -140,8 +140,8 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int)] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
+    msig = hn1.reshape(int(nb), int(m))
+    dzth = np.fft.fft(msig, axis=0).T / np.sqrt(nb)
     mzh = np.zeros((m, nb))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
@@ -152,7 +152,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-    gam = np.real(izak(dztgam)) / signal.shape[0]
+    gam = np.real(izak(dztgam.T)) / signal.shape[0]
 
     # Computation of Gabor coefficient of dual frame window.
     dgrn1 = np.zeros((signal.shape[0], n_coeff), dtype=complex)
-- 
2.43.0


From f96c4da10032a4adb74a8fd63051a04df2fc97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 65/83] fix: gabor accepts windows that reach past the end of
 the lattice's period

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 80a5db1..b2aff86 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -138,7 +138,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     hn1 = np.zeros((signal.shape[0],))
     start = np.round(((signal.shape[0] - (nh - 1))) / 2) - alpha
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
-    hn1[np.arange(start - 1, end).astype(int)] = window
+    hn1[np.arange(start - 1, end).astype(int) % signal.shape[0]] = window
 
     msig = hn1.reshape(int(nb), int(m))
     dzth = np.fft.fft(msig, axis=0).T / np.sqrt(nb)
-- 
2.43.0


From 8129e3bac654baff3f6458f4031d3ce39f8488a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:50 +0000
Subject: [PATCH 66/83] fix: Page representation sums the past samples at their
 own lag

---
 tftb/processing/cohen.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 37fd931..913222a 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -53,11 +53,10 @@ class PageRepresentation(BaseTFRepresentation):
         self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
-            tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]), ti)
+            tau = np.arange(min([self.n_fbins - 1, ti]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
+                                             np.conj(self.signal[ti - tau]))
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From 4c5bfa631cb73d6f214c7dd517f87ef694bc9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 67/83] fix: contours and solids of affine distributions are
 drawn at their voices

---
 tftb/processing/affine.py |  3 +++
 tftb/processing/base.py   | 17 +++++++----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index e3363c5..3f56fb5 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -107,6 +107,9 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    def _display_freqs(self):
+        return self.freqs
+
     @display_only
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index af745a2..65aa920 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -89,6 +89,9 @@ class BaseTFRepresentation(object):
         h += 1 - (h % 2)
         return hamming(h)
 
+    def _display_freqs(self):
+        return np.linspace(0, 0.5, self.tfr.shape[0])
+
     def _plot_tfr(self, ax, kind, extent, contour_x=None, contour_y=None,
                   levels=None, show_tf=True, cmap=plt.cm.gray):
         if kind == "cmap":
@@ -98,13 +101,7 @@ class BaseTFRepresentation(object):
             if contour_x is None:
                 contour_x = self.ts
             if contour_y is None:
-                if show_tf:
-                    if self.isaffine:
-                        contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
-                    else:
-                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
-                else:
-                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                contour_y = self._display_freqs()
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
             if levels is not None:
                 ax.contour(contour_x, contour_y, self.tfr, levels)
@@ -225,7 +222,7 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D
                 ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.tfr.shape[1])
-                y = np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._display_freqs()
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -234,12 +231,12 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.tfr.shape[1])
-                y = np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._display_freqs()
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                t, f = np.meshgrid(self.ts, self._display_freqs())
                 if ax is None:
                     ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
-- 
2.43.0


From daf5db2802d46250460e2428742a9633b19bf149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:43 +0000
Subject: [PATCH 68/83] fix: spectrum panel of affine distributions uses the
 whole signal, on the band's axis for the scalogram too

---
 tftb/processing/affine.py | 1 -
 tftb/processing/base.py   | 8 +++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 3f56fb5..0bfe60a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -161,7 +161,6 @@ class Scalogram(AffineDistribution):
     """
 
     name = "scalogram"
-    isaffine = False
 
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 65aa920..15d99ab 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -72,9 +72,11 @@ class BaseTFRepresentation(object):
         if not self.isaffine:
             return np.fft.fftshift(np.abs(np.fft.fft(self.signal)) ** 2)
         nf2 = self.tfr.shape[0]
-        spec = np.abs(np.fft.fft(self.signal[self.ts.min():(self.ts.max() + 1)],
-                                 2 * nf2)) ** 2
-        return spec[:nf2]
+        signal = self.signal[self.ts.min():(self.ts.max() + 1)]
+        # whole multiple of 2 * nf2, so that none of the signal is cut off
+        step = int(np.ceil(signal.shape[0] / (2.0 * nf2)))
+        spec = np.abs(np.fft.fft(signal, 2 * nf2 * step)) ** 2
+        return spec[:(nf2 * step):step]
 
     def _make_window(self):
         """Make a Hamming window function.
-- 
2.43.0


From 18f3186d4eb4f302c019980b18d8cb4ffafa5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 69/83] fix: reassigned distributions accept a single instant

---
 tftb/processing/reassigned.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index e42ee9d..efa4ac1 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -256,7 +256,9 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     k = 0.001
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if tcol == 1:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
@@ -387,7 +389,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if tcol == 1:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
-- 
2.43.0


From 125f6ab98ab91430725f9a0cce85c2e50cc7f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 70/83] fix: the scalogram is computed at the requested
 instants

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0bfe60a..637d3e9 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -165,7 +165,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From c5319b8b93aeb470fd484c613f3587122b2d7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 71/83] fix: in-band energy of affine distributions does not
 depend on the requested instants

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 637d3e9..768219f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -76,8 +76,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.s1.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.s1.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From 0a3056c95b5fac9a182ac31312f64ec22b9ec501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 72/83] fix: wide band ambiguity correlates the whole Mellin
 spectrum, so that it peaks at the origin

---
 tftb/processing/ambiguity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 6c53550..21df69d 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -82,7 +82,8 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     theta = np.log(scale)
     mellinSSb = mellinS * np.conj(mellinSb)
 
-    waf = np.fft.ifft(mellinSSb, N, axis=0)
+    # every other row of the zero-padded correlation: N scales, q ** 2 apart
+    waf = np.fft.ifft(mellinSSb, axis=0)[::2, :]
     no2 = int((N + N % 2) / 2.0)
     waf = np.r_[waf[no2:(N + 1), :], waf[:no2, :]]
 
-- 
2.43.0


From b3639c8178a993583ad74a9ab66626ecd2d27cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 73/83] fix: wide band ambiguity is normalised by its value at
 the origin

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 21df69d..98e24ef 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -93,7 +93,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     indmin = int(1 + np.round(fmin * (nx - 2)))
     indmax = int(1 + np.round(fmax * (nx - 2)))
     sp_ana = SP[(indmin - 1):indmax]
-    waf *= (np.linalg.norm(sp_ana) ** 2) / waf[no2 - 1, m - 1] / N
+    waf *= (np.linalg.norm(sp_ana) ** 2) / waf[N - no2, m] / N
 
     return waf, tau, theta
 
-- 
2.43.0


From 880502ade303c85c43166f3c4aafcdabb0e7b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 74/83] fix: scale axis of the wide band ambiguity is zero at
 the origin's row

---
 tftb/processing/ambiguity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 98e24ef..8d36b3b 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -78,13 +78,12 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
         mellinSb[:, i] = np.fft.fftshift(np.fft.ifft(Sb[:, i] * coef))
 
     k = np.arange(1, 2 * N + 1)
-    scale = np.logspace(np.log10(fmin / fmax), np.log10(fmax / fmin), N)
-    theta = np.log(scale)
     mellinSSb = mellinS * np.conj(mellinSb)
 
     # every other row of the zero-padded correlation: N scales, q ** 2 apart
     waf = np.fft.ifft(mellinSSb, axis=0)[::2, :]
     no2 = int((N + N % 2) / 2.0)
+    theta = 2 * np.log(q) * (np.arange(N) - (N - no2))
     waf = np.r_[waf[no2:(N + 1), :], waf[:no2, :]]
 
     # normalization
-- 
2.43.0


From ebf4d23ab4da59d255d199774e7124e8810e4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 75/83] fix: affine distributions place events at their own
 instants

---
 tftb/processing/affine.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 768219f..f06f6c4 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -124,21 +124,10 @@ class AffineDistribution(BaseTFRepresentation):
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2.0 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2) * self.geo_f[i]
-            tck = splrep(x, y)
+            tck = splrep(gamma, tffr[i, :])
+            xi = (self.ts - self.m) * self.geo_f[i]
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.geo_f.ravel()
@@ -315,21 +304,10 @@ class UnterbergerDistribution(AffineDistribution):
         )
         # conversion from tff to tf using 1d interpolation
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2.0 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2 - 1) * self.geo_f[i]
-            tck = splrep(x, y)
+            tck = splrep(gamma, tffr[i, :])
+            xi = (self.ts - self.m) * self.geo_f[i]
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.freqs = self.geo_f[: self.n_voices].ravel()
-- 
2.43.0


From 7a847527538d2343765121f0f45e0cba86d67a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 76/83] fix: weight of the D-Flandrin distribution is inverted

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index f06f6c4..6ee92db 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -352,13 +352,13 @@ class DFlandrinDistribution(AffineDistribution):
         for n in range(1, 2 * self.m1 + 1):
             mx1 = (
                 np.exp(
-                    -(2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 - self.u[n - 1] / 4)
+                    (-2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 - self.u[n - 1] / 4)
                 )
                 * mellin1
             )
             mx2 = (
                 np.exp(
-                    -(2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 + self.u[n - 1] / 4)
+                    (-2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 + self.u[n - 1] / 4)
                 )
                 * mellin2
             )
-- 
2.43.0


From 2a19ce2ec3857f2fe79256551056fc18066bda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 77/83] fix: affine distributions fail on single-row and
 single-column signals

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 6ee92db..b1ead68 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -26,7 +26,7 @@ class AffineDistribution(BaseTFRepresentation):
 
     def __init__(self, signal, fmin=None, fmax=None, **kwargs):
         super(AffineDistribution, self).__init__(signal, **kwargs)
-        if signal.ndim == 2:
+        if signal.ndim == 2 and 1 not in signal.shape:
             self.kind = "cross"
             self.x1, self.x2 = self.signal[:, 0].copy(), self.signal[:, 1].copy()
         else:
@@ -156,7 +156,7 @@ class Scalogram(AffineDistribution):
     ):
         super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
-            waveparams = np.sqrt(signal.shape[0])
+            waveparams = np.sqrt(self.signal.shape[0])
         if n_voices is None:
             n_voices = self.signal.shape[0]
         self.n_voices = n_voices
-- 
2.43.0


From e85b4a67cfb1f4769685402da8083d3ddc945501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:30 +0000
Subject: [PATCH 78/83] fix: contour plots without side panels dropped the
 given levels and grid

---
 tftb/processing/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 15d99ab..d3ac998 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -238,7 +238,13 @@ class BaseTFRepresentation(object):
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, self._display_freqs())
+                if contour_x is None:
+                    contour_x = self.ts
+                if contour_y is None:
+                    contour_y = self._display_freqs()
+                if levels is not None:
+                    kwargs['levels'] = levels
+                t, f = np.meshgrid(contour_x, contour_y)
                 if ax is None:
                     ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
-- 
2.43.0


From f079691bfd18716e126367770415c323e699497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:30 +0000
Subject: [PATCH 79/83] fix: affine contour levels ignored the threshold given

---
 tftb/processing/affine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index b1ead68..c71c378 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -119,7 +119,8 @@ class AffineDistribution(BaseTFRepresentation):
             freq_y = np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
 
         super(AffineDistribution, self).plot(
-            kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+            kind=kind, show_tf=show_tf, freq_y=freq_y, threshold=threshold,
+            **kwargs
         )
 
     def _get_interpolated_tf(self, tffr):
-- 
2.43.0


From 26ce7a858550af23cfcbbaede99549256c89f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 80/83] fix: logarithmic contour levels follow the values
 displayed, not the signed distribution

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 913222a..7b82b12 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -182,15 +182,15 @@ class WignerVilleDistribution(BaseTFRepresentation):
     @display_only
     def plot(self, kind='cmap', threshold=0.05, sqmod=False, **kwargs):
         scale = kwargs.pop("scale", "linear")
+        if sqmod:
+            self.tfr = np.abs(self.tfr) ** 2
+        else:
+            self.tfr = np.abs(self.tfr)
         if scale == "log":
             maxi = np.amax(self.tfr)
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
-        if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        else:
-            self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
-- 
2.43.0


From 30b966846ea1e40d90d143b2b150c22f8026b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 81/83] fix: Gabor dual of a window of small amplitude was not
 its dual

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index b2aff86..b0caf7d 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -148,7 +148,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         mod = modulo(x - l * m / q_oversample, m).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
-    mzh[mzh < np.spacing(1)] = 1
+    mzh[mzh < np.spacing(np.amax(mzh))] = 1
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-- 
2.43.0


From 7d49890ee6a421f11cb4b9faba55e9a64f5e0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:45 +0000
Subject: [PATCH 82/83] fix: modulo raised on complex arrays some of whose
 entries are real

---
 tftb/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0042330..37e4e7e 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -132,8 +132,8 @@ def modulo(x, N):
     >>> print(modulo(range(1, 11), 2))
     [1 2 1 2 1 2 1 2 1 2]
     """
-    if any(np.isreal(x)):
-        y = np.mod(x, N)
+    if np.all(np.isreal(x)):
+        y = np.mod(np.real(x), N)
         y[y == 0] = N
     else:
         y = np.mod(np.real(x), N) + 1j * np.mod(np.imag(x), N)
-- 
2.43.0


From e227fa9d8697343f5eff0bae8b08c26779c45b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 83/83] fix: Bertrand distribution raised on bands wider than a
 ratio of 54

---
 tftb/processing/affine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index c71c378..b5470cb 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Affine Class.
 
 import numpy as np
 from scipy.signal import hilbert
-from scipy.optimize import brenth, newton
+from scipy.optimize import newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
@@ -389,8 +389,7 @@ class BertrandDistribution(AffineDistribution):
         super(BertrandDistribution, self).__init__(
             signal, fmin=fmin, fmax=fmax, n_voices=n_voices, **kwargs
         )
-        umaxbert = lambda x: np.exp(x) - self.fmax / self.fmin
-        self.umax = brenth(umaxbert, 0, 4)
+        self.umax = np.log(self.fmax / self.fmin)
         teq = self.m / (self.fmax * self.umax)
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
-- 
2.43.0

