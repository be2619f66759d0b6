From 9d0011a8c1f1181f417827c575ace5e00e6305d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 001/104] fix: per-bin BakerCousinsChiUp skips the bins the
 total skips

---
 echidna/fit/test_statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index ba10c5c..426c0b3 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,6 +302,9 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
+            if obs > exp:  # Not counted
+                stats.append(0.)
+                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From 7ef6b55dc3a718629133b4e37b2b2a6c34d3e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 002/104] fix: test statistics no longer modify the caller's
 arrays (and accept integers)

---
 echidna/fit/test_statistic.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 426c0b3..00b0c61 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -372,6 +372,9 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -398,6 +401,9 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -465,6 +471,9 @@ class Neyman(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -491,6 +500,9 @@ class Neyman(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -560,6 +572,9 @@ class Pearson(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # Limit of zero
         total = 0
         for i in range(len(observed)):
@@ -586,6 +601,9 @@ class Pearson(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
+        # Convert to float arrays (copies - leave the caller's arrays alone)
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
-- 
2.43.0


From d7795f9ed8fa42711a42367c55352f1f19480605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 003/104] fix: SpectraParameter.round rounds to bin edges also
 when low is not a multiple of the width

---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..9bd459b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        width = self.get_width()
+        return self._low + round((x - self._low) / width) * width
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From 01eb23eb206e6a90f1c817abd46a01a55b4f177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 004/104] fix: Spectra.shrink slices with an integer upper bin
 (floats are no valid slice indices)

---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From aba9e914daae08e3bb6cabffed7c73d1d35d89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 005/104] fix: Spectra.rebin checks all dimensions before
 changing the config

---
 echidna/core/spectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..0a7e5af 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -366,6 +366,7 @@ class Spectra(object):
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From 703c33f7fa79fe3c60093e0fb2afe746c87fc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 006/104] fix: nd_project and surface sum the right axes when
 more than one is summed over

---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 0a7e5af..e813501 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,8 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum highest axis first so that the lower indices remain valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -594,7 +595,8 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum highest axis first so that the lower indices remain valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From aa510d66df6614a658dd5a04ac440e2d1de9e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 007/104] fix: copies of a spectrum no longer share data,
 binning and ROIs with the original

---
 echidna/core/spectra.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index e813501..a6a1bed 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -62,6 +62,27 @@ class Spectra(object):
         self._num_decays = float(num_decays)
         self._location = None
 
+    def __copy__(self):
+        """ Copy this spectrum, with its own binning and ROI information.
+
+        The config and ROIs describe the data held by one spectrum and are
+        updated with it (e.g. by :meth:`shrink` and :meth:`rebin`), so a
+        copy must not share them with the original.
+
+        Returns:
+          :class:`Spectra`: The copy.
+        """
+        spectrum = self.__class__.__new__(self.__class__)
+        spectrum.__dict__.update(self.__dict__)
+        spectrum._data = self._data.copy()
+        spectrum._rois = copy.deepcopy(self._rois)
+        spectrum._config = copy.copy(self._config)
+        spectrum._config._parameters = copy.copy(self._config._parameters)
+        for par in spectrum._config._parameters:
+            spectrum._config._parameters[par] = copy.copy(
+                self._config._parameters[par])
+        return spectrum
+
     def add(self, spectrum):
         """ Adds a spectrum to current spectra object.
 
-- 
2.43.0


From 70d37f7935bfc54b535c61c487e09737eb33ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 008/104] fix: spectra created from one config no longer change
 each other's binning

---
 echidna/core/spectra.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index a6a1bed..1039737 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -44,7 +44,8 @@ class Spectra(object):
                  background_name=None):
         """ Initialise the spectra data container.
         """
-        self._config = spectra_config
+        # Each spectrum updates its config, e.g. in shrink, so needs its own
+        self._config = self._copy_config(spectra_config)
         self._raw_events = 0
         bins = []
         for v in self._config.get_pars():
@@ -76,13 +77,25 @@ class Spectra(object):
         spectrum.__dict__.update(self.__dict__)
         spectrum._data = self._data.copy()
         spectrum._rois = copy.deepcopy(self._rois)
-        spectrum._config = copy.copy(self._config)
-        spectrum._config._parameters = copy.copy(self._config._parameters)
-        for par in spectrum._config._parameters:
-            spectrum._config._parameters[par] = copy.copy(
-                self._config._parameters[par])
+        spectrum._config = self._copy_config(self._config)
         return spectrum
 
+    @staticmethod
+    def _copy_config(config):
+        """ Copy a config and its parameters.
+
+        Args:
+          config (:class:`SpectraConfig`): The config to copy.
+
+        Returns:
+          :class:`SpectraConfig`: The copy.
+        """
+        config = copy.copy(config)
+        config._parameters = copy.copy(config._parameters)
+        for name in config._parameters:
+            config._parameters[name] = copy.copy(config._parameters[name])
+        return config
+
     def add(self, spectrum):
         """ Adds a spectrum to current spectra object.
 
-- 
2.43.0


From b332609bfdc98edcd275137bb01091539193a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 009/104] fix: shrink to a bound that equals the existing one
 up to rounding keeps axes and data in step

---
 echidna/core/spectra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 1039737..39b19df 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -493,7 +493,9 @@ class Spectra(object):
                 raise IndexError("%s is not a parameter in the config" % par)
             if high_low == "low":
                 if numpy.allclose(kwargs[arg], self._config.get_par(par)._low):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = self._config.get_par(par)._low
+                    continue
                 if kwargs[arg] < self._config.get_par(par)._low:
                     raise ValueError("%s is below existing bound for %s (%s)"
                                      % (kwargs[arg], par,
@@ -501,7 +503,9 @@ class Spectra(object):
             elif high_low == "high":
                 if numpy.allclose(kwargs[arg],
                                   self._config.get_par(par)._high):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = self._config.get_par(par)._high
+                    continue
                 if kwargs[arg] > self._config.get_par(par)._high:
                     raise ValueError("%s is above existing bound for %s (%s)"
                                      % (kwargs[arg], par,
-- 
2.43.0


From 8ce2f9777410d782f967d573a027c361e61f033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 010/104] fix: shrink rejects bounds that select no bins
 instead of leaving negative bin counts

---
 echidna/core/spectra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 39b19df..40a26bc 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -516,6 +516,7 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_pars = []
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -562,9 +563,15 @@ class Spectra(object):
                     low_bin += 1
                     new_low = par._low + low_bin * par.get_width()
                 print "Corrected %s to %s" % (kw_low, new_low)
+            if high_bin <= low_bin:
+                raise ValueError("No bins of %s between %s and %s"
+                                 % (par_name, kwargs[kw_low],
+                                    kwargs[kw_high]))
             slices_high.append(high_bin)
             slices_low.append(low_bin)
             new_bins = high_bin - low_bin
+            new_pars.append((par, new_low, new_high, new_bins))
+        for par, new_low, new_high, new_bins in new_pars:
             par.set_par(low=new_low, high=new_high, bins=new_bins)
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
-- 
2.43.0


From 50f64a703b432ea4ee62f60d47f8645295e46c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 011/104] fix: Spectra.add refuses spectra whose axes are in a
 different order

---
 echidna/core/spectra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 40a26bc..ec82d51 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -140,6 +140,9 @@ class Spectra(object):
                 v_spec = dim+'_'+types[dim]
             else:
                 v_spec = v
+            if self._config.get_index(v) != \
+                    spectrum.get_config().get_index(v_spec):
+                raise IndexError("%s is not the same axis in both spectra" % v)
             if not numpy.allclose(self.get_config().get_par(v)._high,
                                   spectrum.get_config().get_par(v_spec)._high):
                 raise ValueError("Upper %s bounds in spectra are not equal."
-- 
2.43.0


From 05263e9625f3a64d2dde2e9ad603ee9b352e1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 012/104] fix: get_value_index reports a missing value with a
 ValueError (message formatting failed)

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 9bd459b..0556f93 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -513,7 +513,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 581a1bbfb6b9f38a6f1ede5c6ba5cbb6f8f2d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 013/104] fix: FitParameter.set_par accepts unset values and
 keeps the number of bins an integer

---
 echidna/core/parameter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 0556f93..36cbad9 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -557,8 +557,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -571,7 +571,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
-- 
2.43.0


From 419276e0677e8707ab125712e7adad7f41113b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 014/104] fix: logscale_deviation values have integer numbers
 of points that add up to the bins

---
 echidna/core/parameter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 36cbad9..131275e 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -460,10 +460,17 @@ class FitParameter(Parameter):
                 delta_high = numpy.absolute(self._high - self._prior)
 
                 # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                # Prior is in both parts, so there are bins + 1 values to share.
+                # A part that has more than the prior needs at least 2 values.
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                if delta_high > 0.:
+                    bins_low = min(bins_low, self._bins - 1)
+                if delta_low > 0.:
+                    bins_low = max(bins_low, 2)
+                else:
+                    bins_low = 1
+                bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 11a33c8aab7574c4337c507e89f393fa400805ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 015/104] fix: FitParameter.set_par drops cached values also
 when a keyword is rejected

---
 echidna/core/parameter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 131275e..8354aeb 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -563,6 +563,10 @@ class FitParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        # Done first, so that an error below cannot leave outdated values
+        self._logger.warning("Setting _values and _bin_boundaries to None")
+        self._values = None
+        self._bin_boundaries = None
         for kw in kwargs:
             self._logger.warning("Updating value for %s (%s --> %s)" %
                                  (kw, self.__dict__.get("_"+kw), kwargs[kw]))
@@ -589,9 +593,6 @@ class FitParameter(Parameter):
                 self._dimension = str(kwargs[kw])
             else:
                 raise TypeError("Unhandled parameter name / type %s" % kw)
-        self._logger.warning("Setting _values and _bin_boundaries to None")
-        self._values = None
-        self._bin_boundaries = None
 
     def set_penalty_term(self, penalty_term):
         """ Set value for :attr:`_penalty_term`.
-- 
2.43.0


From 40a2461d581cecac71ccdfdf8c8b0d03997dcdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 016/104] fix: logscale_deviation values with the prior at the
 upper end have as many points as bins

---
 echidna/core/parameter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 8354aeb..592ca55 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -464,8 +464,7 @@ class FitParameter(Parameter):
                 # A part that has more than the prior needs at least 2 values.
                 bins_low = int(numpy.rint(
                     (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
-                if delta_high > 0.:
-                    bins_low = min(bins_low, self._bins - 1)
+                bins_low = min(bins_low, self._bins - int(delta_high > 0.))
                 if delta_low > 0.:
                     bins_low = max(bins_low, 2)
                 else:
-- 
2.43.0


From 7c3e3422c9928c18429f40cc84cb684f10600a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 017/104] fix: parameter dictionaries hold the penalty term
 (not the best fit again), as plain numbers

---
 echidna/core/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 592ca55..80510e4 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -637,7 +637,10 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
+        for key in ["current_value", "best_fit", "penalty_term"]:
+            if parameter_dict[key] is not None:  # numpy types can't be stored
+                parameter_dict[key] = float(parameter_dict[key])
         return parameter_dict
 
 
-- 
2.43.0


From 6d69507dbda0ca44a4c816b05d1a2826a442c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 018/104] fix: logscale parameters can be loaded without a base

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 80510e4..ed84ac8 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -217,7 +217,7 @@ class FitParameter(Parameter):
         if logscale:
             self._logger.info("Setting logscale %s for parameter %s" %
                               (logscale, name))
-            logging.getLogger("extra").info(" --> with base: %.4g" % base)
+            logging.getLogger("extra").info(" --> with base: %s" % base)
             if logscale_deviation is not None:
                 self._logger.warning("Recieved logscale_deviation flag that "
                                      "will not have any effect")
-- 
2.43.0


From ca2969999147cda1c7d5133cdb8e058237348a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 019/104] fix: Config.get_type returns the type of the config,
 not its name

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..06e6924 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -148,9 +148,9 @@ class Config(object):
         """
         Returns:
           string: Type of :class:`Config` class instance - stored in
-            :attr:`_name`.
+            :attr:`_type`.
         """
-        return self._name
+        return self._type
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From b892a536b20ee2b76a77a6847a679421e222d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 020/104] fix: GlobalFitConfig.load keeps the name it is given

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 06e6924..377615e 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From a65cdad327f477668ec0a3fabab0c7c925210363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 021/104] fix: configs loaded with a blank name are called
 after their file, as documented

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 377615e..9cb271c 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 216c0e75137363056b99b7594681596ed407a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 022/104] fix: GlobalFitConfig.dump only removes the dimension
 at the start of a parameter name

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 9cb271c..08b392f 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -290,8 +290,8 @@ class GlobalFitConfig(Config):
 
             name = par.get_name()
             # Remove dimension from name, if required
-            if dimension in name:
-                name = name.replace(dimension+"_", "")
+            if name.startswith(dimension+"_"):
+                name = name[len(dimension)+1:]
 
             # Get parameter dict from par
             global_fit_config[main_key][dimension][name] = par.to_dict(basic)
-- 
2.43.0


From f0caed879da48dc8251da070eec43cc8971743e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 023/104] fix: a dumped GlobalFitConfig without spectral
 parameters can be loaded

---
 echidna/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 08b392f..2185af8 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -467,7 +467,7 @@ class GlobalFitConfig(Config):
 
         # Add spectral fit parameters:
         main_key = "spectral_fit_parameters"
-        if not spectral_config.get(main_key):
+        if main_key not in spectral_config.keys():
             logging.getLogger("extra").debug("\n\n%s\n" % str(spectral_config))
             raise KeyError("Cannot read spectra fit config dictionary. "
                            "Please check it has the correct form")
-- 
2.43.0


From 35c2106c2af27b313cca22492b0d83a8c728932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 024/104] fix: GlobalFitConfig.dump_to_file with blank names
 writes two different files, as documented

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 2185af8..97deade 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -333,7 +333,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         with open(path+global_fname, "w") as stream:
@@ -343,7 +343,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
@@ -577,7 +577,7 @@ class SpectraFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
-- 
2.43.0


From de91e357eb2911096f669101f7a053e6e25cf072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 025/104] fix: FitParameter.to_dict gives a plain float for
 sigma, so that configs with numpy sigmas can be dumped

---
 echidna/core/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index ed84ac8..4f09d7b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -626,6 +626,8 @@ class FitParameter(Parameter):
         # Add basic attributes
         parameter_dict["prior"] = self._prior
         parameter_dict["sigma"] = self._sigma
+        if self._sigma is not None:  # numpy types can't be stored
+            parameter_dict["sigma"] = float(self._sigma)
         parameter_dict["low"] = self._low
         parameter_dict["high"] = self._high
         parameter_dict["bins"] = self._bins
-- 
2.43.0


From c3837e9ad0fd1c9d14db5c289d35425ba321a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 026/104] Revert "fix: test statistics no longer modify the
 caller's arrays (and accept integers)"

This reverts commit 7ef6b55dc3a718629133b4e37b2b2a6c34d3e9ae.
---
 echidna/fit/test_statistic.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 00b0c61..426c0b3 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -372,9 +372,6 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -401,9 +398,6 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -471,9 +465,6 @@ class Neyman(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -500,9 +491,6 @@ class Neyman(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -572,9 +560,6 @@ class Pearson(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # Limit of zero
         total = 0
         for i in range(len(observed)):
@@ -601,9 +586,6 @@ class Pearson(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
-        # Convert to float arrays (copies - leave the caller's arrays alone)
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
-- 
2.43.0


From 1bde6c21af3b94a136aaad6ef6882cbee96f69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 027/104] Revert "fix: per-bin BakerCousinsChiUp skips the bins
 the total skips"

This reverts commit 9d0011a8c1f1181f417827c575ace5e00e6305d1.
---
 echidna/fit/test_statistic.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 426c0b3..ba10c5c 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,9 +302,6 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
-            if obs > exp:  # Not counted
-                stats.append(0.)
-                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From 5630862c88b9ab1479939e41320d8b93d26d8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 028/104] fix: GridSearch iterates over integer indices (floats
 are no valid array indices)

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..914fbdf 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From 9d77d5f28c85a241fde4030998a52b7abf431d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:03 +0000
Subject: [PATCH 029/104] fix: GridSearch.minimise checks the shape of per-bin
 results (the check was unreachable)

---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 914fbdf..74f9bfa 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From eb21c7d8d755e9346bf443e486dc1178cf3753a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 030/104] fix: GridSearch locates the minimum it returns also
 when some statistics are nan

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 74f9bfa..eaa0b0b 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -345,7 +345,7 @@ class GridSearch(FitResults, Minimiser):
         if self._use_numpy:
             # Set best_fit values
             # This is probably not the most efficient way of doing this
-            position = numpy.argmin(minimum)
+            position = numpy.nanargmin(minimum)
             position = numpy.unravel_index(position, minimum.shape)
             minimum = numpy.nanmin(minimum)
         else:  # Use find_minimum method
@@ -631,7 +631,8 @@ class GridSearch(FitResults, Minimiser):
           (41, 2, 12), the location (4, 10, 15) would be returned
         """
         dims = len(array.shape)
-        minimum = copy.copy(array)
+        # nans never count as the minimum (as in numpy.nanmin)
+        minimum = numpy.where(numpy.isnan(array), numpy.inf, array)
         coords = None
 
         # Loop over dimensions, working outwards
-- 
2.43.0


From 6a0c0c320ab5dff25c28a96d3b84b42a22d62a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 031/104] fix: find_minimum selects co-ordinates with integer
 indices

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index eaa0b0b..3d06093 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -582,7 +582,7 @@ class GridSearch(FitResults, Minimiser):
         product = 1  # product of dimensions
         for dim in new_coords.shape:
             product *= dim
-            multiplier += len(coords) / product
+            multiplier += len(coords) // product
 
         # Calculate indices
         indices = [i * multiplier + j for i, j in enumerate(new_coords)]
-- 
2.43.0


From 3ffef1c530ef45aaa9ef65deea8c4de4cd422a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 032/104] fix: reset_grids keeps the grid's form (per bin or
 not)

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 3d06093..2c6c8f4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -472,8 +472,9 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        stats_shape = self._fit_config.get_shape()
+        if self._per_bin:
+            stats_shape += self._spectra_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From d22bda3a72535787fe4dc5ba1aa85f2d7bdd9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 033/104] fix: GridSearch without a name is called after its
 fit config, as documented

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 2c6c8f4..82bc697 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From 25a14de1cd49653a06f1c7f79f1023579b678680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 034/104] fix: get_raw_stats selects the slice at the given
 parameter values

---
 echidna/fit/minimise.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 82bc697..c78d24f 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -189,16 +189,18 @@ class GridSearch(FitResults, Minimiser):
                 self._spectra_config.get_shape():
             for i in range(len(self._spectra_config.get_shape())):
                 stats = stats.sum(-1)
+        for par in kwargs:
+            if par not in self._fit_config.get_pars():
+                raise IndexError("Unknown parameter %s" % par)
         if kwargs:
-            cmd = "stats["
-            for par in self._fit_config.get_pars():
-                if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
-                    cmd += str(idx)+","
+            indices = []
+            for par_name in self._fit_config.get_pars():
+                if par_name in kwargs:
+                    par = self._fit_config.get_par(par_name)
+                    indices.append(par.get_bin(kwargs[par_name]))
                 else:
-                    cmd += ":,"
-            cmd = cmd[:-1] + "]"
-            stats = eval(cmd)
+                    indices.append(slice(None))
+            stats = stats[tuple(indices)]
         return stats
 
     def get_raw_stats_at(self, **kwargs):
-- 
2.43.0


From be51cb2eb90436902fbc9a76cbd15e0da05e6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 035/104] fix: get_raw_stats_at returns single statistics
 instead of failing on their shape

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index c78d24f..a09276c 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -217,11 +217,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while numpy.ndim(stats) > 0 and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while numpy.ndim(stats) > 0 and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From 73c6731a08cd6d9e76508481cce69391c429d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 036/104] fix: get_penalty_terms returns the stored array, as
 documented, not a slice of its first axis

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index a09276c..e18f209 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -148,10 +148,8 @@ class GridSearch(FitResults, Minimiser):
           (:class:`numpy.ndarray`): Array stored in :attr:`_penalty_terms`.
             Values of the penalty term calculated during the fit.
         """
-        if len(self._fit_config.get_pars()) == 1.:
-            return self._penalty_terms
-        par_idx = self._fit_config.get_index(par)
-        return self._penalty_terms[par_idx]
+        self._fit_config.get_index(par)  # raises an error if unknown
+        return self._penalty_terms
 
     def get_raw_stat(self, indices):
         """ Gets the raw test statistic(s) from array at the given indices.
-- 
2.43.0


From 0ff2c680f1e4b01bf0382b6fc7b74623f3098d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 037/104] fix: get_limit_stat returns the recorded statistic

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 33b5b4f29621864216397069341484d3e1656cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 038/104] fix: projections of the statistics grid sum the right
 axes

---
 echidna/fit/minimise.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index e18f209..950abac 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -5,6 +5,7 @@ import numpy
 from echidna.fit.fit_results import FitResults
 
 import copy
+import itertools
 import abc
 
 
@@ -394,19 +395,17 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
-            # Can apply penalty term contributions
+        if all(par in self._fit_config.get_pars() for par in parameters):
+            # Can apply penalty term contributions. The indices fix every
+            # fit parameter, so there are no axes left to sum over
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -436,15 +435,16 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        counter = 0
+        if all(par in self._fit_config.get_pars() for par in parameters):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
+            for axis, parameter in enumerate(self._fit_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
+            projection = copy.copy(self._stats)
             for axis, parameter in enumerate(
                     itertools.chain(self._fit_config.get_pars(),
                                     self._spectra_config.get_pars())):
-- 
2.43.0


From 8942b432692be02e296f2a7618842f59b8825190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 039/104] fix: FitParameter.get_bin gives the nearest grid
 value, not the first close one

---
 echidna/core/parameter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4f09d7b..f1e413b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -311,11 +311,12 @@ class FitParameter(Parameter):
         Returns:
           int: Bin index.
         """
-        try:
-            return numpy.where(numpy.isclose(self.get_values(), value))[0][0]
-        except:
-            return int((value - self._low) / (self._high - self._low) *
-                       self._bins)
+        values = self.get_values()
+        index = numpy.argmin(numpy.absolute(values - value))
+        if numpy.isclose(values[index], value):
+            return int(index)
+        return int((value - self._low) / (self._high - self._low) *
+                   self._bins)
 
     def get_bin_boundaries(self):
         """ ***PENDING DEPRECATION***
-- 
2.43.0


From 8c94a3806b3aac28ea427543f7c0968122aee110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 040/104] fix: scaling everything out of range gives an empty
 spectrum, not NaN

---
 echidna/core/scale.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..790126e 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -165,7 +165,8 @@ class Scale(object):
                             "scale2 * (y / unscaled_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
+        if scaled_spec.sum() > 0.:  # Otherwise nothing is left in range
+            scaled_spec._num_decays = scaled_spec.sum()
+            scaled_spec.scale(prescale_sum)
         scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
-- 
2.43.0


From 283c686a39d24d948a2d9f0e7f94564ef493d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 041/104] fix: shifting everything out of range gives an empty
 spectrum, not NaN

---
 echidna/core/shift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..53399c6 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -162,8 +162,9 @@ class Shift(object):
                             "old_data2 * scale2 * (y / unshifted_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
+        if shifted_spec.sum() > 0.:  # Otherwise nothing is left in range
+            shifted_spec._num_decays = shifted_spec.sum()
+            shifted_spec.scale(preshift_sum)
         shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
-- 
2.43.0


From 6beb9d2ea61f457f0f159631f90113a62015db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 042/104] fix: recognise whole-bin shifts whose remainder
 rounds to a full bin

---
 echidna/core/shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 53399c6..53d13c4 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -44,7 +44,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if numpy.isclose(shift - numpy.rint(shift / step) * step, 0.):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -182,7 +182,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not numpy.isclose(shift - numpy.rint(shift / step) * step, 0.):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From edd30c84ab159bf926cd2332b739bf5247a32dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 043/104] fix: weighted smearing includes the highest bin

---
 echidna/core/smear.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..8d95e72 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -254,14 +254,12 @@ class EnergySmearLY(Smear):
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -502,14 +500,12 @@ class EnergySmearRes(Smear):
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -720,14 +716,12 @@ class RadialSmear(Smear):
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 4449715f8ca22ab170e98262e58c4aaf10558a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 044/104] fix: random radial smearing counts whole entries

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 8d95e72..36c1118 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -775,7 +775,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From 03876a1f86ccd43b6d49e4cdf0e40703abbaca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 045/104] fix: Poisson smearing by resolution uses the
 resolution that was set

---
 echidna/core/smear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 36c1118..4d3ee77 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -448,6 +448,7 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            self._light_yield = 1. / resolution**2  # Nhit/MeV
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From 81fd1a30e3a6b911664beb74824abc679bfce3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 046/104] fix: stored spectra do not need the missing module
 echidna.limit.summary

---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From eff1358135f6153c7aeae4fe602a2b15e8487771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 047/104] fix: the signal of a fit is convolved with every
 global parameter

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..fdeea2e 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -539,8 +539,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 1a7e5986850fd6ceb8dd7c16f24651d90b7a9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 048/104] fix: a fit no longer changes the floating backgrounds
 it evaluates

---
 echidna/fit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index fdeea2e..b815b81 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -509,7 +509,8 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
-            # Apply spectrum-specific parameters
+            # Apply spectrum-specific parameters, to a copy of the spectrum
+            spectrum = copy.copy(spectrum)
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
                     parameter = spectrum._fit_config.get_par(par_name)
@@ -546,6 +547,7 @@ class Fit(object):
                     self._global_dict[background_name][cur_val] = signal
                 else:
                     signal = self._global_dict[background_name][cur_val]
+                signal = copy.copy(signal)
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
-- 
2.43.0


From 2a0e61e4596e0e34a682d47be95b799f251cf06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:47 +0000
Subject: [PATCH 049/104] fix: convolved spectra are remembered per spectrum,
 not per background name

---
 echidna/fit/fit.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index b815b81..df3ed8f 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -80,6 +80,7 @@ class Fit(object):
                  signal=None, shrink=True, per_bin=False, minimiser=None,
                  use_pre_made=False, pre_made_base_dir=None, single_bin=False):
         self._logger = logging.getLogger("Fit")
+        self._global_dict = {}
         self._checked = False
         self.set_roi(roi)
 
@@ -490,14 +491,13 @@ class Fit(object):
         cur_val = ""
         for parameter in global_pars:
             cur_val += parameter._name + str(parameter._current_value) + "_"
-        for spectrum, floating_pars in zip(self._floating_backgrounds,
-                                           self._floating_pars):
+        for i, (spectrum, floating_pars) in enumerate(
+                zip(self._floating_backgrounds, self._floating_pars)):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                if i not in self._global_dict:
+                    self._global_dict[i] = {}
+                if cur_val not in self._global_dict[i]:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -505,9 +505,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    self._global_dict[i][cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = self._global_dict[i][cur_val]
 
             # Apply spectrum-specific parameters, to a copy of the spectrum
             spectrum = copy.copy(spectrum)
@@ -531,10 +531,9 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                if "signal" not in self._global_dict:
+                    self._global_dict["signal"] = {}
+                if cur_val not in self._global_dict["signal"]:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -544,9 +543,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    self._global_dict["signal"][cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = self._global_dict["signal"][cur_val]
                 signal = copy.copy(signal)
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
-- 
2.43.0


From fe316322f5ac78c40c86ee68bad8b2b47013ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 050/104] fix: spectra convolved for replaced or shrunk spectra
 are not used again

---
 echidna/fit/fit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index df3ed8f..9f56d9f 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -117,16 +117,14 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
 
+        self._signal = None
         if signal:
             self.set_signal(signal)
         else:  # Set both as None for now
-            self._signal = None
             self._signal_pars = None
             self._logger.warning("No signal has been set.")
 
@@ -696,6 +694,7 @@ class Fit(object):
         """
         if isinstance(fit_config, GlobalFitConfig):
             self._fit_config = fit_config
+            self._global_dict = {}
         else:
             raise TypeError("fit_config type (%s) is invalid" %
                             type(fit_config))
@@ -740,6 +739,7 @@ class Fit(object):
             floating_pars.append(self.get_roi_pars(background))
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
+        self._global_dict = {}  # Forget convolutions of previous spectra
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
@@ -818,6 +818,8 @@ class Fit(object):
         """
         if shrink:
             self.shrink_spectra(signal)
+        if shrink or signal is not self._signal:
+            self._global_dict.pop("signal", None)
         self._signal = signal
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
@@ -840,6 +842,7 @@ class Fit(object):
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
         """
+        self._global_dict = {}
         if self._data:
             self.shrink_spectra(self._data)
         if self._fixed_background:
-- 
2.43.0


From d7c3f7a4f66dd8ca739d0e3a855b288185271394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 051/104] fix: a fit is checked again after its spectra or
 settings change

---
 echidna/fit/fit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9f56d9f..70ca697 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -165,6 +165,7 @@ class Fit(object):
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
             self._fixed_background.add(spectrum)
+        self._checked = False  # Must redo checks
 
     def check_all_spectra(self):
         """ Ensures that all spectra can be used for fitting.
@@ -657,6 +658,7 @@ class Fit(object):
         if shrink:
             self._fixed_background = total_spectrum  # No need to check
             self._fixed_pars = self.get_roi_pars(total_spectrum)
+            self._checked = False  # Must redo checks
         else:
             self.set_fixed_background(total_spectrum, shrink)
 
@@ -682,6 +684,7 @@ class Fit(object):
         self._logger.debug("Setting Spectra with name %s as data" %
                            data.get_name())
         self._data_pars = self.get_roi_pars(data)
+        self._checked = False  # Must redo checks
 
     def set_fit_config(self, fit_config):
         """
@@ -695,6 +698,7 @@ class Fit(object):
         if isinstance(fit_config, GlobalFitConfig):
             self._fit_config = fit_config
             self._global_dict = {}
+            self._checked = False  # Must redo checks
         else:
             raise TypeError("fit_config type (%s) is invalid" %
                             type(fit_config))
@@ -714,6 +718,7 @@ class Fit(object):
             self.check_spectra(fixed_background)
         self._fixed_background = fixed_background
         self._fixed_pars = self.get_roi_pars(fixed_background)
+        self._checked = False  # Must redo checks
 
     def set_floating_backgrounds(self, floating_backgrounds, shrink=True):
         """ Sets the floating backgrounds you want to fit.
@@ -740,6 +745,7 @@ class Fit(object):
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
         self._global_dict = {}  # Forget convolutions of previous spectra
+        self._checked = False  # Must redo checks
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
@@ -752,6 +758,7 @@ class Fit(object):
           IndexError: If fit config contains no parameters.
         """
         self.check_all_spectra()  # All spectra should be set and checked first
+        self._checked = False  # Must redo checks
         if minimiser:
             self._minimiser = minimiser
             self._logger.debug("Setting %s as minimiser" %
@@ -791,6 +798,7 @@ class Fit(object):
             An appropriate class for calculating test statistics.
         """
         self._test_statistic = test_statistic
+        self._checked = False  # Must redo checks
         self._logger.debug("Set _test_statistic as %s" % str(test_statistic))
 
     def set_roi(self, roi):
@@ -824,6 +832,7 @@ class Fit(object):
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
         self._signal_pars = self.get_roi_pars(signal)
+        self._checked = False  # Must redo checks
 
     def set_pre_made_dir(self, directory):
         """ Sets the directory in which pre-made convolved spectra are
-- 
2.43.0


From f4b60a1016ffebca8eab01a3f41a322657550d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 052/104] fix: a signal set without shrinking is checked like
 all other spectra

---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 70ca697..748c798 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -826,6 +826,8 @@ class Fit(object):
         """
         if shrink:
             self.shrink_spectra(signal)
+        else:
+            self.check_spectra(signal)
         if shrink or signal is not self._signal:
             self._global_dict.pop("signal", None)
         self._signal = signal
-- 
2.43.0


From a0653d354618cbf3718eb3e6d4d6dcfa536d3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 053/104] fix: per-bin statistics have the binning of the data

---
 echidna/fit/fit.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 748c798..11a285b 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -576,7 +576,7 @@ class Fit(object):
 
         # Check for per_bin flag
         if self._per_bin:
-            test_statistic = test_statistic.reshape(spectrum._data.shape)
+            test_statistic = test_statistic.reshape(self._data._data.shape)
 
         return test_statistic, total_penalty
 
@@ -764,28 +764,12 @@ class Fit(object):
             self._logger.debug("Setting %s as minimiser" %
                                minimiser.get_name())
         else:  # Use default GridSearch
-            if self._per_bin:
-                if self._floating_backgrounds:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._floating_backgrounds[0].
-                        get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-                else:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._data.get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-            else:
-                self._minimiser = GridSearch(
-                    fit_config=self._fit_config,
-                    spectra_config=self._data.get_config(),
-                    name=self._fit_config.get_name(),
-                    per_bin=self._per_bin)
+            self._minimiser = GridSearch(
+                fit_config=self._fit_config,
+                spectra_config=self._data.get_config(),
+                name=self._fit_config.get_name(),
+                # This assumes fitting over all dimensions
+                per_bin=self._per_bin)
             self._logger.debug("Created GridSearch (%s) to use as minimiser" %
                                self._minimiser.get_name())
 
-- 
2.43.0


From e8b6338248acbc2958535fdf0da9194dab687a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 054/104] fix: a fit refuses signals and fixed backgrounds with
 another binning than the data

---
 echidna/fit/fit.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 11a285b..ad814d7 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -433,10 +433,13 @@ class Fit(object):
             observed = self._data.nd_project(self._data_pars)
             expected = self._fixed_background.nd_project(self._fixed_pars)
             if self._signal:
-                expected += self._signal.nd_project(self._signal_pars)
+                signal = self._signal.nd_project(self._signal_pars)
+                self._check_binning(signal, expected)
+                expected += signal
             if self._single_bin:
                 expected = numpy.sum(expected)
                 observed = numpy.sum(observed)
+            self._check_binning(expected, observed)
             return self._test_statistic.compute_statistic(observed.ravel(),
                                                           expected.ravel())
         else:  # Pass to minimiser
@@ -444,6 +447,21 @@ class Fit(object):
                 raise AttributeError("Minimiser is not set.")
             return self._minimiser.minimise(self._funct, self._test_statistic)
 
+    def _check_binning(self, spectrum, other):
+        """ Checks that two projections over the roi have the same bins.
+
+        Args:
+          spectrum (:class:`numpy.ndarray`): Projection of a spectrum.
+          other (:class:`numpy.ndarray`): Projection to compare it to.
+
+        Raises:
+          CompatibilityError: If the shapes are different.
+        """
+        if spectrum.shape != other.shape:
+            raise CompatibilityError("Shape of projection %s does not match "
+                                     "shape %s" % (spectrum.shape,
+                                                   other.shape))
+
     def _funct(self, *args):
         """ Callable to pass to minimiser.
 
@@ -551,7 +569,9 @@ class Fit(object):
                 signal.scale(num_decays)
             else:
                 signal = self._signal
-            expected += signal.nd_project(self._signal_pars)
+            signal = signal.nd_project(self._signal_pars)
+            self._check_binning(signal, expected)
+            expected += signal
 
         # If single bin - sum over expected and observed
         if self._single_bin:
-- 
2.43.0


From 7db548b7dc7c54ca4f62698cf06969a6b62bb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 055/104] fix: a rejected floating background leaves the
 parameters of a fit alone

---
 echidna/fit/fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ad814d7..a85dd23 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -755,13 +755,15 @@ class Fit(object):
                                "_floating_backgrounds" % background.get_name())
             if background.get_fit_config():
                 self.check_fit_config(background)
-                # Spectrum has a valid fit config, add to GlobalFit Config
-                self._fit_config.add_config(background.get_fit_config())
             if shrink:
                 self.shrink_spectra(background)
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+        for background in floating_backgrounds:
+            if background.get_fit_config():
+                # Spectrum has a valid fit config, add to GlobalFit Config
+                self._fit_config.add_config(background.get_fit_config())
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
         self._global_dict = {}  # Forget convolutions of previous spectra
-- 
2.43.0


From d897c72941d2f02640c2710c9e2bc83b6c96b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 056/104] fix: a supplied min_stat of zero (or an array) is
 used

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..e8b7808 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 7d876ae6a38ad661d7166b265b5bbbd634ccb20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 057/104] fix: limits of parameters without sigma can be
 summarised

---
 echidna/limit/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index e8b7808..77692f4 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,7 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
+                log_text += ("Sigma: %s\n" %
                              cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
@@ -263,7 +263,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From be497e42cf1146b65f20062596c7f5e4765515ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 058/104] fix: the limit of a per-bin fit starts at the scale
 of lowest statistic

---
 echidna/limit/limit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 77692f4..8d87e25 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -182,7 +182,7 @@ class Limit(object):
         stats -= min_stat
 
         # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
+        min_bin = numpy.argmin(self.sum_entries(stats))
 
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
@@ -190,8 +190,8 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
             log_text += "Signal Decays: %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -252,10 +252,11 @@ class Limit(object):
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(
+                self.sum_entries(stats[min_bin:]))
+            max_scale = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += "Signal Decays (at max stat): %.4g\n" % max_scale
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
-- 
2.43.0


From 9f3d27d2b8cea07ad6313c54b6ee3ba574867a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 059/104] fix: a limit for a signal uses that signal, also when
 the fit held another one

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 8d87e25..27e0a99 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -154,7 +154,7 @@ class Limit(object):
             self._logger.debug("signal scale: %.4g" % scale)
             print "scale", scale
             if not numpy.isclose(scale, 0.):
-                if self._fitter.get_signal() is None:
+                if self._fitter.get_signal() is not self._signal:
                     self._fitter.set_signal(self._signal, shrink=False)
                 self._fitter._signal.scale(scale)
             else:  # want no signal contribution
-- 
2.43.0


From 3096ee14b92f4096dee21ae8695d53a78dc969cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 060/104] fix: storing spectra with a limit uses the arguments
 dump has

---
 echidna/limit/limit.py | 105 +++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 27e0a99..d84db43 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -212,40 +212,7 @@ class Limit(object):
             log_text += "N.D.F.: 1\n"  # Only fit one dof currently
             logging.getLogger("extra").info("\n%s\n" % log_text)
 
-            if store_limit:
-                if limit_fname:
-                    if limit_fname[-5:] != '.hdf5':
-                        limit_fname += '.hdf5'
-                else:
-                    timestamp = datetime.datetime.now().strftime(
-                        "%Y-%m-%d_%H-%M-%S")
-                    path = output.__default_save_path__ + "/"
-                    fname = (self._limit_results.get_name() + "_" + timestamp +
-                             ".hdf5")
-                    limit_fname = path + fname
-                store.dump_limit_results(limit_fname, self._limit_results)
-                self._logger.info("Saved summary of %s to file %s" %
-                                  (self._limit_results.get_name(),
-                                   limit_fname))
-            if store_spectra:
-                path = output.__default_save_path__ + "/"
-                fname = self._fitter.get_data()._name + "_data.hdf5"
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    fname = (self._fitter.get_fixed_background()._name +
-                             "_fixed.hdf5")
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        fname = background._name + "_float.hdf5"
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                fname = self._signal._name + "_signal.hdf5"
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+            self._store(store_limit, store_spectra, limit_fname)
 
             return limit
 
@@ -273,29 +240,7 @@ class Limit(object):
             log_text += "N.D.F.: 1\n"  # Only fit one dof currently
             logging.getLogger("extra").info("\n%s" % log_text)
 
-            if store_limit:
-                timestamp = datetime.datetime.now().strftime(
-                    "%Y-%m-%d_%H-%M-%S")
-                path = output.__default_save_path__ + "/"
-                fname = (self._limit_results.get_name() + "_" + timestamp +
-                         ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
-                self._logger.info("Saved summary of %s to file %s" %
-                                  (self._limit_results.get_name(),
-                                   path + fname))
-            if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+            self._store(store_limit, store_spectra, limit_fname)
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
@@ -317,6 +262,52 @@ class Limit(object):
             stats.append(self._fitter.fit())
         return numpy.array(stats)
 
+    def _store(self, store_limit, store_spectra, limit_fname=None):
+        """ Stores the limit results and/or the spectra of the fit.
+
+        Args:
+          store_limit (bool): If True (default) then a hdf5 file containing
+            the :class:`echidna.fit.fit_results.LimitResults` object is saved.
+          store_spectra (bool): If True then a hdf5 file is saved for each
+            spectrum used in the fit.
+          limit_fname (string): Filename to save the
+            :class:`echidna.fit.fit_results.LimitResults` to.
+        """
+        if store_limit:
+            if limit_fname:
+                if limit_fname[-5:] != '.hdf5':
+                    limit_fname += '.hdf5'
+            else:
+                timestamp = datetime.datetime.now().strftime(
+                    "%Y-%m-%d_%H-%M-%S")
+                path = output.__default_save_path__ + "/"
+                fname = (self._limit_results.get_name() + "_" + timestamp +
+                         ".hdf5")
+                limit_fname = path + fname
+            store.dump_limit_results(limit_fname, self._limit_results)
+            self._logger.info("Saved summary of %s to file %s" %
+                              (self._limit_results.get_name(),
+                               limit_fname))
+        if store_spectra:
+            path = output.__default_save_path__ + "/"
+            fname = self._fitter.get_data()._name + "_data.hdf5"
+            store.dump(path + fname, self._fitter.get_data(), append=True,
+                       overwrite=True)
+            if self._fitter.get_fixed_background():
+                fname = (self._fitter.get_fixed_background()._name +
+                         "_fixed.hdf5")
+                store.dump(path + fname,
+                           self._fitter.get_fixed_background(), append=True,
+                           overwrite=True)
+            if self._fitter.get_floating_backgrounds():
+                for background in self._fitter.get_floating_backgrounds():
+                    fname = background._name + "_float.hdf5"
+                    store.dump(path + fname, background, append=True,
+                               overwrite=True)
+            fname = self._signal._name + "_signal.hdf5"
+            store.dump(path + fname, self._signal, append=True,
+                       overwrite=True)
+
     def sum_entries(self, array):
         """ Sums entries of an array which contains arrays as entries.
 
-- 
2.43.0


From 3924f148b7984ccee8ec3b973f2a8ba22a87ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 061/104] fix: get_array_limit accepts whole-number statistics

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index d84db43..0879c3e 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -77,7 +77,7 @@ class Limit(object):
             raise CompatibilityError("Array length and number of signal "
                                      "scalings is different.")
         i = 0
-        if not isinstance(array[0], float):  # is array
+        if numpy.ndim(array[0]) > 0:  # is array
             array = self.sum_entries(array)
         for entry in array:
             if entry > limit:
-- 
2.43.0


From 94e7c0d08777eca216394e9003a60d48eb12a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:35 +0000
Subject: [PATCH 062/104] fix: results of fits without floating parameters can
 be stored

---
 echidna/output/store.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..f247820 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -78,6 +78,21 @@ def string_to_dict(in_string):
     return out_dict
 
 
+def _compression(array):
+    """ Compression to use for an array.
+
+    Args:
+      array (:class:`numpy.ndarray`): Array to save.
+
+    Returns:
+      string: Compression filter, None for a scalar as these can't be
+        compressed.
+    """
+    if numpy.ndim(array) == 0:
+        return None
+    return "gzip"
+
+
 def dump(file_path, spectrum, append=False, overwrite=False):
     """ Dump the spectrum to the file_path.
 
@@ -173,9 +188,10 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
-                             compression="gzip")
+                             compression=_compression(
+                                 fit_results._penalty_terms))
         group.create_dataset("stats", data=fit_results._stats,
-                             compression="gzip")
+                             compression=_compression(fit_results._stats))
         group.attrs["resets"] = fit_results._resets
 
     _logger.info("Saved fit results %s to %s" %
@@ -230,9 +246,11 @@ def dump_limit_results(file_path, limit_results, append=False):
                     sub_group.attrs["exists"] = 1.
                     sub_group.create_dataset("penalty_terms",
                                              data=fit_result._penalty_terms,
-                                             compression="gzip")
+                                             compression=_compression(
+                                                 fit_result._penalty_terms))
                     sub_group.create_dataset("stats", data=fit_result._stats,
-                                             compression="gzip")
+                                             compression=_compression(
+                                                 fit_result._stats))
                     sub_group.attrs["resets"] = fit_result._resets
                 else:
                     sub_group.attrs["exists"] = 0.
-- 
2.43.0


From f5892507b0ffcddf55b0238452b85a9cadabf196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 063/104] fix: a min_stat taken from the fit does not change
 with later fits

---
 echidna/limit/limit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 0879c3e..087d8e4 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -123,6 +123,7 @@ class Limit(object):
         if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
+            min_stat = copy.copy(min_stat)  # may be part of the fit results
         else:  # check zero signal stat in case its not in self._stats
             self._fitter.remove_signal()
             fit_stats = self._fitter.fit()
-- 
2.43.0


From cc810196d2d7a8a7cfc650a20f46e44368e17c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 064/104] fix: the spectra name of a stored fit config is read
 back

---
 echidna/output/store.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index f247820..f7c4b62 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -119,6 +119,8 @@ def dump(file_path, spectrum, append=False, overwrite=False):
                 get_name()
             group.attrs["fit_config"] = json.dumps(
                 spectrum.get_fit_config().dump())
+            group.attrs["fit_config_spectra_name"] = \
+                spectrum.get_fit_config()._spectra_name
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
@@ -290,7 +292,9 @@ def load(file_path):
                     json.loads(
                         group.attrs["fit_config"],
                         object_pairs_hook=OrderedDict),
-                    spectra_name=spec_name, name=fit_config_name)
+                    spectra_name=group.attrs.get("fit_config_spectra_name",
+                                                 spec_name),
+                    name=fit_config_name)
             except KeyError as detail:
                 _logger.warning("Handling run-time error: %s" % detail)
                 logging.getLogger("extra").warning(" --> setting to None")
-- 
2.43.0


From cc7060c3c721f0a753a744c93ec5d3a916616118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 065/104] fix: a spectrum stored without a style has none when
 loaded

---
 echidna/output/store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index f7c4b62..2ca1ca8 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -124,10 +124,7 @@ def dump(file_path, spectrum, append=False, overwrite=False):
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
-        if len(spectrum.get_style()) == 0:
-            group.attrs["style"] = ""
-        else:
-            group.attrs["style"] = json.dumps(spectrum.get_style())
+        group.attrs["style"] = json.dumps(spectrum.get_style())
         if len(spectrum._rois) == 0:
             group.attrs["rois"] = ""
         else:
-- 
2.43.0


From d40ebc3275b500445c46e6eceb3ac7581b1ad6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 066/104] fix: stored results keep the order of their
 parameters

---
 echidna/output/store.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 2ca1ca8..e0df43f 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -161,6 +161,31 @@ def dump_ndarray(file_path, ndarray_object):
     _logger.info("Saved %s to %s" % (str(ndarray_object), file_path))
 
 
+def _dump_order(group, fit_config):
+    """ Saves the order of the parameters in a fit config, which is the
+    order of the dimensions of the arrays saved with it.
+
+    Args:
+      group (:class:`h5py.Group`): Group to save to.
+      fit_config (:class:`echidna.core.config.GlobalFitConfig`): The config.
+    """
+    group.attrs["fit_config_order"] = json.dumps(list(fit_config.get_pars()))
+
+
+def _load_order(group, fit_config):
+    """ Puts the parameters of a loaded fit config in their saved order.
+
+    Args:
+      group (:class:`h5py.Group`): Group to load from.
+      fit_config (:class:`echidna.core.config.GlobalFitConfig`): The config.
+    """
+    if "fit_config_order" in group.attrs:  # not saved in older files
+        pars = fit_config._parameters
+        fit_config._parameters = OrderedDict(
+            (str(name), pars[name])
+            for name in json.loads(group.attrs["fit_config_order"]))
+
+
 def dump_fit_results(file_path, fit_results, append=False):
     """ Dump the fit results to the specified file_path.
 
@@ -185,6 +210,7 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             fit_results._fit_config.dump())
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
+        _dump_order(group, fit_results._fit_config)
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
                              compression=_compression(
@@ -221,6 +247,7 @@ def dump_limit_results(file_path, limit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             limit_results._fit_config.dump())
         group.attrs["fit_config_name"] = limit_results._fit_config.get_name()
+        _dump_order(group, limit_results._fit_config)
         group.attrs["limit_config"] = json.dumps(
             limit_results._limit_config.dump())
         group.attrs["limit_config_name"] = \
@@ -417,6 +444,7 @@ def load_fit_results(file_path):
             spectral_config=json.loads(group.attrs["fit_config"],
                                        object_pairs_hook=OrderedDict)[1],
             name=fit_config_name)
+        _load_order(group, fit_config)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
@@ -468,6 +496,7 @@ def load_limit_results(file_path):
         else:
             fit_config = GlobalFitConfig.load(global_config,
                                               name=fit_config_name)
+        _load_order(group, fit_config)
         limit_config = json.loads(group.attrs["limit_config"],
                                   object_pairs_hook=OrderedDict)
         limit_config_name = group.attrs["limit_config_name"]
-- 
2.43.0


From 700db907e2cc29ae541b53a822b70b7abba17aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 067/104] fix: the fits stored with a limit are read back as
 they were

---
 echidna/output/store.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index e0df43f..a7eb25c 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -270,6 +270,7 @@ def dump_limit_results(file_path, limit_results, append=False):
                 sub_group = group.create_group(str(i))
                 if type(fit_result) is GridSearch:
                     sub_group.attrs["exists"] = 1.
+                    sub_group.attrs["name"] = fit_result.get_name()
                     sub_group.create_dataset("penalty_terms",
                                              data=fit_result._penalty_terms,
                                              compression=_compression(
@@ -520,16 +521,21 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
-                    fit_results = GridSearch(fit_config=fit_config,
-                                             spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                    stats = sub_group["stats"].value
+                    fit_results = GridSearch(
+                        fit_config=copy.deepcopy(fit_config),
+                        spectra_config=spectra_config,
+                        name=sub_group.attrs.get("name", fit_config_name),
+                        per_bin=stats.shape != fit_config.get_shape())
+                    fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
+                        p.set_penalty_term(
+                            limit_results.get_penalty_term(i, par))
                     limit_results._fit_results[i] = copy.deepcopy(fit_results)
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From 1290aca09a0ad5de874a7244e022a0dd790f64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 068/104] fix: results of fits without floating parameters can
 be loaded

---
 echidna/output/store.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index a7eb25c..3d9756b 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -459,8 +459,9 @@ def load_fit_results(file_path):
         fit_results = GridSearch(fit_config=fit_config,
                                  spectra_config=spectra_config, name=name,
                                  per_bin=per_bin)
-        fit_results.set_stats(stats)
-        fit_results.set_penalty_terms(group["penalty_terms"].value)
+        fit_results.set_stats(numpy.array(stats))
+        fit_results.set_penalty_terms(
+            numpy.array(group["penalty_terms"].value))
         fit_results._resets = group.attrs["resets"]
 
     _logger.info("Loaded FitResults %s" % fit_results.get_name())
-- 
2.43.0


From 015fc88bd9da09bf028cd234d48436e2b4a02138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 069/104] fix: set_pre_made_dir sets the directory pre-made
 spectra are loaded from

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index a85dd23..6fea4d1 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -854,7 +854,8 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
+        self._global_dict = {}  # Forget spectra of previous directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From efa3e5baa303e775c706381b0a0a22ce3e6f0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 070/104] fix: directories of pre-made spectra need no trailing
 slash

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 6fea4d1..345accc 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -624,7 +624,8 @@ class Fit(object):
         if self._pre_made_base_dir:
             directory = self._pre_made_base_dir
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.dirname(spectrum._location)
+        directory = os.path.join(directory, '')  # Add '/' if needed
 
         # Add current value of each global parameter
         for par in global_pars:
-- 
2.43.0


From 7600a54da9327830b52b872208682dfb76041c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 071/104] fix: a dimension is looked for among the directories
 of a pre-made spectrum, not in their names

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 345accc..9396fbf 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -631,7 +631,7 @@ class Fit(object):
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            if dim not in directory.split('/'):
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From 4ddf5fc8104630dced3cb7726255387adcace9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 072/104] fix: names of pre-made spectra keep the zeros of
 whole numbers and exponents

---
 echidna/core/parameter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f1e413b..faacdf1 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -800,7 +800,8 @@ class ResolutionParameter(FitParameter):
             ext = 'rs'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -914,7 +915,8 @@ class ScaleParameter(FitParameter):
             directory += 'scale/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1028,7 +1030,8 @@ class ShiftParameter(FitParameter):
             directory += 'shift/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From 95bd19c8e6b3ce2c6b42c8b9c2fd3c597c09d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 073/104] fix: names of pre-made spectra tell the values of
 every dimension apart, and words from values

---
 echidna/core/parameter.py | 125 +++++++++++++++++++++++++++++---------
 1 file changed, 95 insertions(+), 30 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index faacdf1..f31a0d6 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -11,6 +11,50 @@ import warnings
 from echidna.core import scale, shift, smear
 
 
+def _is_value(word, extensions):
+    """ Checks whether a word in the name of a pre-convolved spectrum is
+    the value of a systematic.
+
+    Args:
+      word (string): Word to check.
+      extensions (tuple): Endings of the values of the systematic.
+
+    Returns:
+      bool: True if word is a number followed by one of the extensions.
+    """
+    if word.endswith(".hdf5"):
+        word = word[:-5]
+    if word[-2:] not in extensions:
+        return False
+    try:
+        float(word[:-2])
+        return True
+    except ValueError:
+        return False
+
+
+def _applied(directory):
+    """ Finds the systematics that have been applied, according to the
+    directory of a pre-convolved spectrum.
+
+    Args:
+      directory (string): Directory containing pre-convolved
+        :class:`Spectra` object
+
+    Returns:
+      list: (dimension, systematic) pairs, in the order of application.
+      string: The dimension that systematics are currently applied to.
+    """
+    applied = []
+    dimension = None
+    for name in directory.split('/'):
+        if name in ("smear", "scale", "shift"):
+            applied.append((dimension, name))
+        elif name:
+            dimension = name
+    return applied, dimension
+
+
 class Parameter(object):
     """ The base class for creating parameter classes.
 
@@ -386,6 +430,24 @@ class FitParameter(Parameter):
         """
         return self._dimension
 
+    def _get_nth(self, directory, systematic):
+        """ Counts how often a systematic has been applied in a directory of
+        pre-convolved spectra, up to its application to the dimension of
+        this parameter. The same number of values in the filename belong to
+        it.
+
+        Args:
+          directory (string): Directory containing pre-convolved
+            :class:`Spectra` object
+          systematic (string): Name of the systematic in the directory.
+
+        Returns:
+          int: Number of applications.
+        """
+        applied, _ = _applied(directory)
+        idx = applied.index((self._dimension, systematic))
+        return [pair[1] for pair in applied[:idx + 1]].count(systematic)
+
     def get_penalty_term(self):
         """ Gets the value of the penalty term at the best fit.
 
@@ -787,10 +849,10 @@ class ResolutionParameter(FitParameter):
         if directory[-1] != '/':
             directory += '/'
         if not added_dim:
-            dir_list = directory.split('/')
-            # Find last occurance of dimension and search from here
-            idx = dir_list[::-1].index(self._dimension)
-            if 'smear' not in dir_list[-idx:]:
+            applied, last = _applied(directory)
+            if (self._dimension, 'smear') not in applied:
+                if last != self._dimension:  # Name dimension again
+                    directory += self._dimension + '/'
                 directory += 'smear/'
         else:
             directory += 'smear/'
@@ -802,16 +864,17 @@ class ResolutionParameter(FitParameter):
         # Strip trailling zero in filename
         if '.' in value_string and 'e' not in value_string:
             value_string = value_string.rstrip('0').rstrip('.')
+        nth = self._get_nth(directory, 'smear')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == ext:
-                x = value_string + ext
-                subbed = True
-            elif x[-7:] == ext + ".hdf5":
-                x = value_string + ext + ".hdf5"
-                subbed = True
+            if _is_value(x, ("ly", "rs")):
+                nth -= 1  # May be the value of another dimension
+                if nth == 0:
+                    x = value_string + ext + (
+                        ".hdf5" if x[-5:] == ".hdf5" else "")
+                    subbed = True
             if x[-5:] == ".hdf5":
                 temp_fname += x
             else:
@@ -906,10 +969,10 @@ class ScaleParameter(FitParameter):
         if directory[-1] != '/':
             directory += '/'
         if not added_dim:
-            dir_list = directory.split('/')
-            # Find last occurance of dimension and search from here
-            idx = dir_list[::-1].index(self._dimension)
-            if 'scale' not in dir_list[-idx:]:
+            applied, last = _applied(directory)
+            if (self._dimension, 'scale') not in applied:
+                if last != self._dimension:  # Name dimension again
+                    directory += self._dimension + '/'
                 directory += 'scale/'
         else:
             directory += 'scale/'
@@ -917,16 +980,17 @@ class ScaleParameter(FitParameter):
         # Strip trailling zero in filename
         if '.' in value_string and 'e' not in value_string:
             value_string = value_string.rstrip('0').rstrip('.')
+        nth = self._get_nth(directory, 'scale')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sc":
-                x = value_string + "sc"
-                subbed = True
-            elif x[-7:] == "sc.hdf5":
-                x = value_string + "sc.hdf5"
-                subbed = True
+            if _is_value(x, ("sc",)):
+                nth -= 1  # May be the value of another dimension
+                if nth == 0:
+                    x = value_string + "sc" + (
+                        ".hdf5" if x[-5:] == ".hdf5" else "")
+                    subbed = True
             if x[-5:] == ".hdf5":
                 temp_fname += x
             else:
@@ -1021,10 +1085,10 @@ class ShiftParameter(FitParameter):
         if directory[-1] != '/':
             directory += '/'
         if not added_dim:
-            dir_list = directory.split('/')
-            # Find last occurance of dimension and search from here
-            idx = dir_list[::-1].index(self._dimension)
-            if 'shift' not in dir_list[-idx:]:
+            applied, last = _applied(directory)
+            if (self._dimension, 'shift') not in applied:
+                if last != self._dimension:  # Name dimension again
+                    directory += self._dimension + '/'
                 directory += 'shift/'
         else:
             directory += 'shift/'
@@ -1032,16 +1096,17 @@ class ShiftParameter(FitParameter):
         # Strip trailling zero in filename
         if '.' in value_string and 'e' not in value_string:
             value_string = value_string.rstrip('0').rstrip('.')
+        nth = self._get_nth(directory, 'shift')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sh":
-                x = value_string + "sh"
-                subbed = True
-            elif x[-7:] == "sh.hdf5":
-                x = value_string + "sh.hdf5"
-                subbed = True
+            if _is_value(x, ("sh",)):
+                nth -= 1  # May be the value of another dimension
+                if nth == 0:
+                    x = value_string + "sh" + (
+                        ".hdf5" if x[-5:] == ".hdf5" else "")
+                    subbed = True
             if x[-5:] == ".hdf5":
                 temp_fname += x
             else:
-- 
2.43.0


From b5812f0e9cea118b90e34d9889d6a8801a8d17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 074/104] fix: a zero loading, radius or density of an isotope
 is not taken for an unset one

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From 3c865b3936c962fbad68ebfe391d334cabf655a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 075/104] fix: numbers of triggers and particles are asked for,
 not compared as methods

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From 3b76741f2be7f9f610be9f701495fe7aa1807c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 076/104] fix: signed radii can be extracted

---
 echidna/core/dsextract.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..53a0207 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1084,6 +1084,8 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float): The fixed radius used in calculating
@@ -1092,10 +1094,14 @@ class ZRadial3ExtractMC(Extractor):
       reconstructed position. If False then MC position is used for cuts.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 reco_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         if outer_radius:
             self._outer_radius = outer_radius
         else:
@@ -1237,6 +1243,8 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
       mc_pos (bool, optional): If true then  MC position is used for cuts.
         If False (default) then position cuts will be made on reconstructed
         position.
@@ -1248,10 +1256,15 @@ class ZRadial3ExtractReco(Extractor):
         If False then position cuts will be made on reconstructed position.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 mc_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         if outer_radius:
             self._outer_radius = outer_radius
         else:
-- 
2.43.0


From 4ef148003b0c5a5126d140a54dde637976de40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 077/104] fix: signed reconstructed radii are read from ROOT
 files, negative below the equator

---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 53a0207..7ae06e3 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1345,9 +1345,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From ac789ccd42a871fb52f25b699886a849a1aec3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 078/104] fix: cubed radii need a reconstructed position, not
 energy

---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 7ae06e3..4ba2538 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1023,8 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1327,8 +1327,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 915af5bd2deae3fe69864ba399706cbbe0e0f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 079/104] fix: events without a reconstructed position fail
 cuts on it

---
 echidna/core/dsextract.py | 41 ++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 4ba2538..c997112 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -53,6 +53,20 @@ def function_factory(dimension, **kwargs):
         raise IndexError("Unknown parameter: %s" % dimension)
 
 
+def has_position(ev):
+    '''Check whether the position of a DS::EV has been reconstructed.
+
+    Args:
+      ev (:class:`RAT.DS.EV`): event
+
+    Returns:
+      bool: Validity boolean
+    '''
+    return ev.DefaultFitVertexExists() and \
+        ev.GetDefaultFitVertex().ContainsPosition() and \
+        ev.GetDefaultFitVertex().ValidPosition()
+
+
 class Extractor(object):
     '''Base class for extractor classes.
 
@@ -154,7 +168,8 @@ class EnergyExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
-        if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+        if has_position(ev) and \
+                ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
         return False  # Fails fiducial volume cut
@@ -289,7 +304,8 @@ class EnergyExtractReco(Extractor):
           bool: Indicates pass or fail of cut
         """
         if not self._mc_pos:  # Default is to use reco info for the cut
-            if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+            if has_position(ev) and \
+                    ev.GetDefaultFitVertex().GetPosition().Mag() < \
                     self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
@@ -428,7 +444,8 @@ class EnergyExtractTruth(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
-        if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+        if has_position(ev) and \
+                ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
         return False  # Fails fiducial volume cut
@@ -572,7 +589,8 @@ class RadialExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
-        if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+        if has_position(ev) and \
+                ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
         return False  # Fails fiducial volume cut
@@ -703,7 +721,8 @@ class RadialExtractReco(Extractor):
           bool: Indicates pass or fail of cut
         """
         if not self._mc_pos:  # Default is to use reco info for the cut
-            if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+            if has_position(ev) and \
+                    ev.GetDefaultFitVertex().GetPosition().Mag() < \
                     self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
@@ -859,7 +878,8 @@ class Radial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
-        if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+        if has_position(ev) and \
+                ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
         return False  # Fails fiducial volume cut
@@ -1003,7 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Indicates pass or fail of cut
         """
         if not self._mc_pos:  # Default is to use reco info for the cut
-            if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+            if has_position(ev) and \
+                    ev.GetDefaultFitVertex().GetPosition().Mag() < \
                     self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
@@ -1155,7 +1176,8 @@ class ZRadial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
-        if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+        if has_position(ev) and \
+                ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
         return False  # Fails fiducial volume cut
@@ -1307,7 +1329,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Indicates pass or fail of cut
         """
         if not self._mc_pos:  # Default is to use reco info for the cut
-            if ev.GetDefaultFitVertex().GetPosition().Mag() < \
+            if has_position(ev) and \
+                    ev.GetDefaultFitVertex().GetPosition().Mag() < \
                     self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-- 
2.43.0


From f8ac295100e92895252314e9796c41e7ea899fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 080/104] fix: the last event of an ntuple is filled behind a
 BiPo cut

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..aba566d 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # No event follows the last one
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From 268da9057c626d9ddbdeb59630bc9faba618c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 081/104] fix: spectra that cannot be filled keep their decays

---
 echidna/core/fill_spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index aba566d..c41a0bb 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -215,8 +215,9 @@ def fill_from_root(filename, spectrum_name="", config=None, spectrum=None,
         spectrum = spectra.Spectra(str(spectrum_name),
                                    dsreader.GetEntryCount(),
                                    config)
+        num_decays = 0  # Of the file, still to be added
     else:
-        spectrum._num_decays += dsreader.GetEntryCount()
+        num_decays = dsreader.GetEntryCount()
         spectrum_name = spectrum._name
     print "Filling", spectrum_name, "with", filename
     extractors = {}
@@ -231,6 +232,7 @@ def fill_from_root(filename, spectrum_name="", config=None, spectrum=None,
         else:
             raise IndexError("Unknown paramer type %s" % var_type)
         extractors[var] = dsextract.function_factory(var, **kwargs)
+    spectrum._num_decays += num_decays
     if bipo:
         spectrum._bipo = 1  # Flag to indicate bipo cuts are applied
     if mc_fill and ev_fill:
@@ -275,13 +277,15 @@ def fill_from_ntuple(filename, spectrum_name="", config=None, spectrum=None,
             raise ValueError("Name not set when creating new spectra.")
         spectrum = spectra.Spectra(str(spectrum_name), chain.GetEntries(),
                                    config)
+        num_decays = 0  # Of the file, still to be added
     else:
-        spectrum._num_decays += chain.GetEntries()
+        num_decays = chain.GetEntries()
         spectrum_name = spectrum._name
     print "Filling", spectrum_name, "with", filename
     extractors = []
     for var in spectrum.get_config().get_pars():
         extractors.append(dsextract.function_factory(var, **kwargs))
+    spectrum._num_decays += num_decays
     if bipo:
         spectrum._bipo = 1  # Flag to indicate bipo cuts are applied
         return _bipo_ntuple(spectrum, chain, extractors)
-- 
2.43.0


From 0bad7b9c4b51d802f760d7705e4f108c8ed95c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 082/104] fix: results of dump_scaled and dump_shrink stay next
 to a file named without its directory

---
 echidna/scripts/dump_scaled.py | 2 +-
 echidna/scripts/dump_shrink.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..c396d6a 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,7 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.join(os.path.dirname(args.file), "")
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..5619e87 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -73,9 +73,9 @@ def main(args):
         spectrum.shrink(**shrink)
     f_out = args.output
     if not f_out:
-        directory = os.path.dirname(args.input)
+        directory = os.path.join(os.path.dirname(args.input), "")
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = directory + filename + "_shrunk.hdf5"
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From d2675ac9e7be4dce41c07897a8c2b58ce6a28d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 083/104] fix: dump_shifted accepts a shift of zero

---
 echidna/scripts/dump_shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shifted.py b/echidna/scripts/dump_shifted.py
index 1cf1e45..43882eb 100644
--- a/echidna/scripts/dump_shifted.py
+++ b/echidna/scripts/dump_shifted.py
@@ -31,7 +31,7 @@ if __name__ == "__main__":
     if not args.file:
         parser.print_help()
         raise IOError("No file given in command line to shift")
-    if not args.shift:
+    if args.shift is None:
         parser.print_help()
         raise ValueError("No shift value given")
     if not args.dimension:
-- 
2.43.0


From 95da47d1af872d72e1f48790102f8736ed977d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 084/104] fix: dump_spectra_root plots and saves its spectrum

---
 echidna/scripts/dump_spectra_root.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..e178e2f 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -52,6 +52,8 @@ def read_and_dump_root(fname, config_path, spectrum_name, save_path, bipo,
             fname, spectrum_name="%s" % (spectrum_name), config=config,
             bipo=bipo, fv_radius=fv_radius)
 
+    spectrum.set_background_name(spectrum_name)
+
     # Plot
     plot_spectrum(spectrum, config)
     # Dump to file
@@ -66,7 +68,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 4f963e521625765cda50da44b1945e19c0b06bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 085/104] fix: lists of event files are read by
 dump_spectra_root and dump_spectra_ntuple

---
 echidna/scripts/dump_spectra_ntuple.py | 9 +++++----
 echidna/scripts/dump_spectra_root.py   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..836e17e 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -88,8 +88,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:
+                file_paths.append(row[0])
     return file_paths
 
 
@@ -116,8 +117,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index e178e2f..be5e8ed 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -85,8 +85,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:
+                file_paths.append(row[0])
     return file_paths
 
 
-- 
2.43.0


From 62047226e266c010a23d3443c243b8f3d63e6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 086/104] fix: multi_ntuple_spectrum saves its spectrum where
 it is asked to

---
 echidna/scripts/multi_ntuple_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..acfcfae 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -72,10 +72,11 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
             else:
                 spec = fill_spectrum.fill_from_ntuple(
                     file_path, spectrum=spec, bipo=bipo, fv_radius=fv_radius)
+    spec.set_background_name(bkgnd_name)
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump("%s/%s.hdf5" % (save_path, bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
@@ -121,7 +122,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(data_path.rstrip('/'))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From 3d4be322a975d53e200bf69c9fbb8f286c881181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:53 +0000
Subject: [PATCH 087/104] fix: plots put every bin at its centre, however the
 axis rounds

---
 echidna/output/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..d39ac01 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -19,8 +19,8 @@ def _produce_axis(spectra, dimension):
       :class:`numpy.array`: The values for the axis.
     """
     par = spectra.get_config().get_par(dimension)
-    width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    bins = _produce_bins(spectra, dimension)
+    return bins[:-1] + 0.5*par.get_width()
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From 21d6a92f73feefe55216654a7fe88411e6853ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 088/104] fix: spectral_plot sums every background

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index d39ac01..1d07481 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -180,7 +180,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
-- 
2.43.0


From 9b94e562c05bb8985a2f9d484e45c9a2b7a7a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:59 +0000
Subject: [PATCH 089/104] fix: plot_root.plot_surface puts each dimension on
 its own axis

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..3473eba 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if (spectra.get_config().get_index(dimension1) >
+            spectra.get_config().get_index(dimension2)):
+        data = data.T
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From 59e5c12eb97e5c52dc1faaad5cb352efe2e15cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:02 +0000
Subject: [PATCH 090/104] fix: plot_root.spectral_plot draws its spectra, their
 sums and the limit

---
 echidna/output/plot_root.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 3473eba..0270201 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -135,30 +135,29 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            par = spectra.get_config().get_par(dimension+"_"+dim_type)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy lower limit")
@@ -168,11 +167,12 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
@@ -183,8 +183,10 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
+        hist.Draw("same")
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
     leg.Draw("same")
     return can
-- 
2.43.0


From 8201c86c1ec0cb0f3d279484e55cbbfe122afee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 091/104] fix: plot_chi_squared_per_bin uses the name it is
 given

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0270201..518cb35 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -215,7 +215,7 @@ def plot_chi_squared_per_bin(calculator, x_bins, x_low, x_high,
         hist_title = "; "+x_title+"; #chi^{2}"
     else:
         hist_title = "; Energy (MeV); #chi^{2}"
-    hist = ROOT.TH1F("chi_sq_per_bin", hist_title, x_bins, x_low, x_high)
+    hist = ROOT.TH1F(h_name, hist_title, x_bins, x_low, x_high)
     bin = 1  # 0 is underflow
     for chi_sq in calculator.get_chi_squared_per_bin():
         hist.SetBinContent(bin, chi_sq)
-- 
2.43.0


From 358a1ae9b9d0a507aad21f6b39b9d65980ebd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:09 +0000
Subject: [PATCH 092/104] fix: plot_sigma_best_fit_vs_scale leaves the stored
 best fits as they are

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 518cb35..7aa75f8 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -430,8 +430,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From 423d18b724f697899dc84b6f4095ebc29008f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:12 +0000
Subject: [PATCH 093/104] fix: plot_per_bin keeps its axes apart, also with a
 single bin

---
 echidna/output/plot_root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 7aa75f8..4f94f04 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -471,11 +471,12 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         stats = fit_results.get_raw_stats_at(**best_fits)
     else:
         stats = fit_results.get_raw_stats_at(**kwargs)
+    stats = numpy.reshape(stats, fit_results._spectra_config.get_shape())
     if y_dim:
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From 121a8327cc568a742f092bcad2dc6b5fa21cb9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:16 +0000
Subject: [PATCH 094/104] fix: get_full_stats has one test statistic per signal
 scale

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..4090036 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
-- 
2.43.0


From 6dc76b8c7f7d5c94dc1eaa2b52b0bae3074198c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:34 +0000
Subject: [PATCH 095/104] fix: plot_summary plots stored limit results

---
 echidna/scripts/plot_summary.py | 44 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/echidna/scripts/plot_summary.py b/echidna/scripts/plot_summary.py
index 2598058..3755f13 100644
--- a/echidna/scripts/plot_summary.py
+++ b/echidna/scripts/plot_summary.py
@@ -11,9 +11,10 @@ Examples:
 
     $ python plot_summary -f /path/to/file.hdf5
 
-  This will create the following plots ``./file_stat.png``,
-  ``./file_best_fit.png``, ``./file_sigma_best_fit.png`` and
-  ``./file_penalty_term.png``.
+  This will create the plot ``./file_stat.png`` and, for each parameter of
+  the fit, ``./file_<parameter>_best_fit.png``,
+  ``./file_<parameter>_sigma_best_fit.png`` and
+  ``./file_<parameter>_penalty_term.png``.
   To specify a save directory, include a -s flag followed by path to
   the required save destination.
   To plot to screen use the --graphical flag.
@@ -23,6 +24,7 @@ from echidna.output import store
 from echidna.output import plot_root as plot
 
 import argparse
+import os
 import ROOT
 
 if __name__ == "__main__":
@@ -35,26 +37,28 @@ if __name__ == "__main__":
                         help="Plot to screen")
     parser.set_defaults(graphical=False)
     args = parser.parse_args()
-    s = store.load_summary(args.fname)
-    base = args.save_path + args.fname.split('/')[-1].rstrip('.hdf5')
+    s = store.load_limit_results(args.fname)
+    name = os.path.splitext(os.path.basename(args.fname))[0]
+    base = os.path.join(args.save_path, name)
     can = ROOT.TCanvas()
     g_stat = plot.plot_stats_vs_scale(s, graphical=False)
     g_stat.GetYaxis().SetTitle("#Delta#chi^{2}")
     g_stat.SetTitle(base)
     g_stat.Draw("AP")
     can.Print(base+"_stat.png")
-    can.Clear()
-    g_best = plot.plot_best_fit_vs_scale(s, graphical=False)
-    g_best.Draw("AP")
-    g_best.SetTitle(base)
-    can.Print(base+"_best_fit.png")
-    can.Clear()
-    g_best_sig = plot.plot_sigma_best_fit_vs_scale(s, graphical=False)
-    g_best_sig.Draw("AP")
-    g_best_sig.SetTitle(base)
-    can.Print(base+"_sigma_best_fit.png")
-    can.Clear()
-    g_penalty = plot.plot_penalty_term_vs_scale(s, graphical=False)
-    g_penalty.Draw("AP")
-    g_penalty.SetTitle(base)
-    can.Print(base+"_penalty_term.png")
+    for par in s._fit_config.get_pars():
+        can.Clear()
+        g_best = plot.plot_best_fit_vs_scale(s, par, graphical=False)
+        g_best.Draw("AP")
+        g_best.SetTitle(base)
+        can.Print(base+"_"+par+"_best_fit.png")
+        can.Clear()
+        g_best_sig = plot.plot_sigma_best_fit_vs_scale(s, par, graphical=False)
+        g_best_sig.Draw("AP")
+        g_best_sig.SetTitle(base)
+        can.Print(base+"_"+par+"_sigma_best_fit.png")
+        can.Clear()
+        g_penalty = plot.plot_penalty_term_vs_scale(s, par, graphical=False)
+        g_penalty.Draw("AP")
+        g_penalty.SetTitle(base)
+        can.Print(base+"_"+par+"_penalty_term.png")
-- 
2.43.0


From d4e24592cfa951baf028647eb9ea40d3b55bde09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:41 +0000
Subject: [PATCH 096/104] fix: cuts of narrow bins a long way from zero are not
 taken for the present bounds

---
 echidna/core/parameter.py | 12 ++++++++++++
 echidna/core/spectra.py   |  7 ++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f31a0d6..b9350a5 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1154,6 +1154,18 @@ class SpectraParameter(Parameter):
                              % (x, self._high))
         return int((x - self._low) / self.get_width())
 
+    def at_edge(self, x, edge):
+        """ Tell whether a value is a bin edge, up to floating point errors.
+
+        Args:
+          x (float): Value along the axis.
+          edge (float): Bin edge to compare the value with.
+
+        Returns:
+          bool: True if the distance is negligible compared to a bin width.
+        """
+        return abs(x - edge) < 1e-5 * self.get_width()
+
     def get_bin_boundaries(self):
         """ Returns the bin boundaries for the parameter
 
diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index ec82d51..fd1fbf4 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -495,7 +495,8 @@ class Spectra(object):
             if par not in self._config.get_pars():
                 raise IndexError("%s is not a parameter in the config" % par)
             if high_low == "low":
-                if numpy.allclose(kwargs[arg], self._config.get_par(par)._low):
+                if self._config.get_par(par).at_edge(
+                        kwargs[arg], self._config.get_par(par)._low):
                     # To avoid floating point errors
                     kwargs[arg] = self._config.get_par(par)._low
                     continue
@@ -504,8 +505,8 @@ class Spectra(object):
                                      % (kwargs[arg], par,
                                         self._config.get_par(par)._low))
             elif high_low == "high":
-                if numpy.allclose(kwargs[arg],
-                                  self._config.get_par(par)._high):
+                if self._config.get_par(par).at_edge(
+                        kwargs[arg], self._config.get_par(par)._high):
                     # To avoid floating point errors
                     kwargs[arg] = self._config.get_par(par)._high
                     continue
-- 
2.43.0


From 25eb52e91eae10cae28060d6006ce455e7a3a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:44 +0000
Subject: [PATCH 097/104] fix: spectra a few narrow bins apart are not added
 bin by bin

---
 echidna/core/spectra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index fd1fbf4..1446a06 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -143,8 +143,9 @@ class Spectra(object):
             if self._config.get_index(v) != \
                     spectrum.get_config().get_index(v_spec):
                 raise IndexError("%s is not the same axis in both spectra" % v)
-            if not numpy.allclose(self.get_config().get_par(v)._high,
-                                  spectrum.get_config().get_par(v_spec)._high):
+            if not self.get_config().get_par(v).at_edge(
+                    spectrum.get_config().get_par(v_spec)._high,
+                    self.get_config().get_par(v)._high):
                 raise ValueError("Upper %s bounds in spectra are not equal."
                                  "\n%s upper bound: %s\n%s upper bound: %s"
                                  % (v, self._name,
@@ -152,8 +153,9 @@ class Spectra(object):
                                     spectrum._name,
                                     spectrum.get_config().get_par(v_spec)
                                     ._high))
-            if not numpy.allclose(self.get_config().get_par(v)._low,
-                                  spectrum.get_config().get_par(v_spec)._low):
+            if not self.get_config().get_par(v).at_edge(
+                    spectrum.get_config().get_par(v_spec)._low,
+                    self.get_config().get_par(v)._low):
                 raise ValueError("Lower %s bounds in spectra are not equal."
                                  "\n%s lower bound: %s\n%s lower bound: %s"
                                  % (v, self._name,
-- 
2.43.0


From 73d593f20b9a93db03329961f9681df320c87f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:05 +0000
Subject: [PATCH 098/104] fix: a spectrum a few narrow bins off the region of
 interest does not pass for cut to it

---
 echidna/fit/fit.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9396fbf..098dc48 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -325,14 +325,13 @@ class Fit(object):
         for dim in self._roi:
             dim_type = spectra.get_config().get_dim_type(dim)
             par = dim + "_" + dim_type
-            if not numpy.isclose(self._roi[dim][0],
-                                 spectra.get_config().get_par(par)._low):
+            spectra_par = spectra.get_config().get_par(par)
+            if not spectra_par.at_edge(self._roi[dim][0], spectra_par._low):
                 raise ValueError("roi %s low (%s) not equal to spectra %s"
                                  " low (%s)"
                                  % (dim, self._roi[dim][0], dim,
                                     spectra.get_config().get_par(par)._low))
-            if not numpy.isclose(self._roi[dim][1],
-                                 spectra.get_config().get_par(par)._high):
+            if not spectra_par.at_edge(self._roi[dim][1], spectra_par._high):
                 raise ValueError("roi %s high (%s) not equal to spectra %s"
                                  " high (%s)"
                                  % (dim, self._roi[dim][0], dim,
-- 
2.43.0


From 760888e18f4aea4afc257307f9b34a6c1607b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:47 +0000
Subject: [PATCH 099/104] fix: fits put bins of the same place together,
 whatever the order of the axes

---
 echidna/fit/fit.py | 57 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 098dc48..29a86c1 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -429,10 +429,10 @@ class Fit(object):
             self.check_fitter()
 
         if not self._floating_backgrounds:  # Use fixed only
-            observed = self._data.nd_project(self._data_pars)
-            expected = self._fixed_background.nd_project(self._fixed_pars)
+            observed = self._project(self._data, self._data_pars)
+            expected = self._project(self._fixed_background, self._fixed_pars)
             if self._signal:
-                signal = self._signal.nd_project(self._signal_pars)
+                signal = self._project(self._signal, self._signal_pars)
                 self._check_binning(signal, expected)
                 expected += signal
             if self._single_bin:
@@ -461,6 +461,41 @@ class Fit(object):
                                      "shape %s" % (spectrum.shape,
                                                    other.shape))
 
+    def _project(self, spectrum, pars):
+        """ Projects a spectrum onto the roi.
+
+        Args:
+          spectrum (:class:`echidna.core.spectra.Spectra`): Spectrum to
+            project.
+          pars (list): Names of the parameters of the spectrum which
+            contain the roi.
+
+        Returns:
+          :class:`numpy.ndarray`: The projection, with the axes in the
+            order they have in the data.
+        """
+        axes = [spectrum.get_config().get_index(par) for par in pars]
+        data_axes = [self._data.get_config().get_index(par)
+                     for par in self._data_pars]
+        projection = spectrum.nd_project(pars)
+        return numpy.transpose(projection, [sorted(axes).index(axes[i])
+                                            for i in numpy.argsort(data_axes)])
+
+    def _rebin_to_data(self, spectrum):
+        """ Rebins a spectrum to the binning of the data.
+
+        Args:
+          spectrum (:class:`echidna.core.spectra.Spectra`): Spectrum to
+            rebin.
+        """
+        config = self._data.get_config()
+        new_bins = []
+        for par in spectrum.get_config().get_pars():
+            dim = spectrum.get_config().get_dim(par)
+            data_par = config.get_par(dim + "_" + config.get_dim_type(dim))
+            new_bins.append(data_par._bins)
+        spectrum.rebin(tuple(new_bins))
+
     def _funct(self, *args):
         """ Callable to pass to minimiser.
 
@@ -498,9 +533,9 @@ class Fit(object):
             par.set_current_value(value)
 
         # Loop over all floating backgrounds
-        observed = self._data.nd_project(self._data_pars)
+        observed = self._project(self._data, self._data_pars)
         if self._fixed_background:
-            expected = self._fixed_background.nd_project(self._fixed_pars)
+            expected = self._project(self._fixed_background, self._fixed_pars)
         else:
             expected = None
         global_pars = self._fit_config.get_global_pars()
@@ -536,12 +571,14 @@ class Fit(object):
             # Shrink to roi
             self.shrink_to_data(spectrum)
             # rebin
-            spectrum.rebin(self._data._data.shape)
+            self._rebin_to_data(spectrum)
             # and then add projection to expected spectrum
+            projection = self._project(spectrum, floating_pars)
             if expected is not None:
-                expected += spectrum.nd_project(floating_pars)
+                self._check_binning(projection, expected)
+                expected += projection
             else:
-                expected = spectrum.nd_project(floating_pars)
+                expected = projection
 
         # Add signal, if required
         if self._signal:
@@ -564,11 +601,11 @@ class Fit(object):
                     signal = self._global_dict["signal"][cur_val]
                 signal = copy.copy(signal)
                 self.shrink_to_data(signal)
-                signal.rebin(self._data._data.shape)
+                self._rebin_to_data(signal)
                 signal.scale(num_decays)
             else:
                 signal = self._signal
-            signal = signal.nd_project(self._signal_pars)
+            signal = self._project(signal, self._signal_pars)
             self._check_binning(signal, expected)
             expected += signal
 
-- 
2.43.0


From 7f686ea0f5381357cd62181f0442d815df2a83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 100/104] fix: a fit compares over the present region of
 interest after it has been moved

---
 echidna/fit/fit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 29a86c1..8b5af40 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -192,6 +192,7 @@ class Fit(object):
             if not self._data_pars:
                 raise CompatibilityError("data roi pars have not been set.")
             self.check_spectra(self._data)
+            self._data_pars = self.get_roi_pars(self._data)
         else:
             raise CompatibilityError("data spectrum has not been set.")
 
@@ -205,11 +206,13 @@ class Fit(object):
                 raise CompatibilityError("fixed background roi pars have not "
                                          "been set.")
             self.check_spectra(self._fixed_background)
+            self._fixed_pars = self.get_roi_pars(self._fixed_background)
 
         if self._signal:
             if not self._signal_pars:
                 raise CompatibilityError("signal roi pars have not been set.")
             self.check_spectra(self._signal)
+            self._signal_pars = self.get_roi_pars(self._signal)
 
         if self._floating_backgrounds:
             if not self._floating_pars:
@@ -222,6 +225,8 @@ class Fit(object):
             for background in self._floating_backgrounds:
                 if background.get_fit_config():
                     self.check_fit_config(background)
+            self._floating_pars = [self.get_roi_pars(background) for
+                                   background in self._floating_backgrounds]
 
     def check_fit_config(self, spectra):
         """ Checks that a spectra has a fit config.
-- 
2.43.0


From 3cc6b508c2f3e29e143e6c4edd4760da9fbfa656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:09 +0000
Subject: [PATCH 101/104] fix: logs are kept in the log directory, however it
 is written

---
 echidna/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..d416b00 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -164,7 +164,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
     logging.basicConfig(
         level=logging.DEBUG,  # Include all logging levels in file
         format=FORMAT,
-        filename=path+filename,
+        filename=os.path.join(path, filename),
         filemode='w')
 
     # Define Handler which writes INFO messages or higher to the sys.stdout
@@ -202,7 +202,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
 
     # Start logging
     logging.info("echidna-v%s" % echidna.__version__)
-    logging.info("Saving logfile to %s" % path + filename)
+    logging.info("Saving logfile to %s" % os.path.join(path, filename))
     logging.info("Starting script: %s.py" % current_module)
     logging.getLogger("extra").info("Use the 'extra' logger at any time "
                                     "to add extra information.")
-- 
2.43.0


From bfff556668b873daec1ca06114c036a6670c4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:06 +0000
Subject: [PATCH 102/104] fix: a prior of zero in the values of a parameter is
 not reported as missing

---
 echidna/core/parameter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index b9350a5..5dd2356 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -315,8 +315,11 @@ class FitParameter(Parameter):
             logging.getLogger("extra").debug("\n\n%s\n" % str(bad_values))
 
         # Check prior contained in values
-        if not numpy.any(numpy.around(values / self._prior, 12) ==
-                         numpy.around(1., 12)):
+        if self._prior == 0.:  # Compare with range as no ratio is defined
+            deviations = values / numpy.max(numpy.absolute(values))
+        else:
+            deviations = values / self._prior - 1.
+        if not numpy.any(numpy.around(deviations, 12) == 0.):
             warnings.warn("Prior not in values array "
                           "for parameter %s" % self._name)
             logging.getLogger("extra").warning(
-- 
2.43.0


From b552a9edc8d3d29db3f783e60130331cb969380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:10 +0000
Subject: [PATCH 103/104] fix: a value just below the upper edge is filled in
 the last bin

---
 echidna/core/spectra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 1446a06..7ff9818 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -232,10 +232,12 @@ class Spectra(object):
                 raise ValueError("%s out of range: %s" % (v, kwargs[v]))
         bins = []
         for v in self._config.get_pars():
-            bins.append(int((kwargs[v] - self._config.get_par(v)._low) /
-                            (self._config.get_par(v)._high -
-                             self._config.get_par(v)._low) *
-                            self._config.get_par(v)._bins))
+            index = int((kwargs[v] - self._config.get_par(v)._low) /
+                        (self._config.get_par(v)._high -
+                         self._config.get_par(v)._low) *
+                        self._config.get_par(v)._bins)
+            # Rounding can take a value just below high past the last bin
+            bins.append(min(index, self._config.get_par(v)._bins - 1))
         self._data[tuple(bins)] += weight
 
     def get_background_name(self):
-- 
2.43.0


From 88fb495f5eb4c5efc095a9881f97d12d53f90c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:20 +0000
Subject: [PATCH 104/104] fix: Spectra.rebin refuses numbers of bins below one

---
 echidna/core/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 7ff9818..1974614 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -403,7 +403,8 @@ class Spectra(object):
                              % len(self._config.get_pars()))
         # Now do the rebinning
         for i, v in enumerate(self._config.get_pars()):
-            if self._config.get_par(v)._bins % new_bins[i] != 0:
+            if (new_bins[i] < 1 or
+                    self._config.get_par(v)._bins % new_bins[i] != 0):
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
-- 
2.43.0

