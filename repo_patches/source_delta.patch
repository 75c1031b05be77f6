From 33fa90aee21691d68a649ac5d2370c1f9dd2f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/47] fix: PLDAccountant accounts for every repetition of
 randomized response

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From 0d900897ab0a55bba51512df615d8684ea11434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 02/47] fix: PLDAccountant supports randomized response with
 full noise

---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..19cd735 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -65,8 +65,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
-          # This is a NoOp event, even when noise_parameter is zero.
+        if event.num_buckets == 1 or event.noise_parameter == 1:
+          # This is a NoOp event, even when noise_parameter is zero: the output
+          # does not depend on the input.
           pass
         elif event.noise_parameter == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 2925d18e3fa42759de8147cb9757030252ee8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 03/47] fix: RDP of sampled Gaussian compositions with integer
 or zero noise multipliers

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..78e6ca1 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -565,16 +565,18 @@ def _effective_gaussian_noise_multiplier(
   if isinstance(event, dp_event.GaussianDpEvent):
     return event.noise_multiplier
   elif isinstance(event, dp_event.ComposedDpEvent):
+    if not event.events:
+      return event
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2
+      sum_sigma_inv_sq += float(sigma)**-2 if sigma != 0 else np.inf
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From df274fbe8c37500684cb7ba6233d5d34ab35296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 04/47] fix: RdpAccountant treats the noiseless Laplace
 mechanism as non-private

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 78e6ca1..e78f79c 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1100,10 +1100,13 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
       if do_compose:
-        eps = 1 / event.noise_multiplier
-        self._rdp += count * np.array(
-            [_laplace_rdp(eps, order) for order in self._orders]
-        )
+        if event.noise_multiplier == 0:
+          self._rdp += np.inf
+        else:
+          eps = 1 / event.noise_multiplier
+          self._rdp += count * np.array(
+              [_laplace_rdp(eps, order) for order in self._orders]
+          )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
       save_rdp = self._rdp
-- 
2.43.0


From a5ded6ab4312f6ff761b16e9a3a53d40baf29708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 05/47] fix: RDP of sampling without replacement with zero
 noise is infinite

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index e78f79c..fd4e242 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -446,12 +446,12 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if q == 0:
     return 0
 
+  if np.isinf(alpha) or sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
-  if np.isinf(alpha):
-    return np.inf
-
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
-- 
2.43.0


From ba0275bea25ffc74e369a053e59352597350b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 06/47] fix: RdpAccountant keeps the accumulated RDP when a
 RepeatAndSelect event fails

---
 .../rdp/rdp_privacy_accountant.py             | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index fd4e242..49a7c66 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1116,15 +1116,20 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         # Zero out self._rdp before computing the RDP of the underlying
         # DP event.
         self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
-      if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
-        )
+      try:
+        composition_error = self._maybe_compose(event.event, 1, do_compose)
+        if composition_error is None and do_compose:
+          save_rdp = (
+              count
+              * _compute_rdp_repeat_and_select(
+                  self._orders, self._rdp, event.mean, event.shape
+              )
+              + save_rdp
+          )
+      finally:
+        # Also if the parameters of the event turn out to be invalid, what was
+        # composed before must not be forgotten.
+        self._rdp = save_rdp
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
       if self._neighboring_relation not in [
-- 
2.43.0


From 0a1cdec8e30997d0c5a1eada52acc0477077cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 07/47] fix: accountants refuse self compositions with
 non-positive counts

---
 .../dp_accounting/pld/pld_privacy_accountant.py             | 4 ++++
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 19cd735..15f93d9 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -48,6 +48,10 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         self._contains_non_dp_event = True
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if event.count < 1:
+        return CompositionErrorDetails(
+            invalid_event=event,
+            error_message=f'`count` must be positive. Found {event.count}.')
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 49a7c66..033e34b 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -575,6 +575,8 @@ def _effective_gaussian_noise_multiplier(
       sum_sigma_inv_sq += float(sigma)**-2 if sigma != 0 else np.inf
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
+    if event.count < 1:
+      return event
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
       return sigma
@@ -1011,6 +1013,10 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         self._rdp += np.inf
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if event.count < 1:
+        return CompositionErrorDetails(
+            invalid_event=event,
+            error_message=f'`count` must be positive. Found {event.count}.')
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
-- 
2.43.0


From cb889eb637eaa3a959246a64563cc8edab08f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 08/47] fix: epsilon from an infinite RDP order

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 033e34b..655d835 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -263,6 +263,8 @@ def compute_epsilon(
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      epsilon = r  # Renyi DP of infinite order is pure DP.
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
-- 
2.43.0


From 2543fe483355570a3b335bbe2db8cb60dbe63e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 09/47] fix: delta of a list of epsilons does not overflow for
 large epsilons

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..8065918 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -104,7 +104,11 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
       deltas[j] = infinity_mass
       j -= 1
     elif i < 0 or losses[i] <= epsilons[j]:
-      deltas[j] = mu_upper_mass - np.exp(epsilons[j]) * mu_lower_mass
+      # Add in log space, since exp(epsilon) overflows for a large epsilon.
+      lower = (
+          np.exp(epsilons[j] + np.log(mu_lower_mass)) if mu_lower_mass > 0 else
+          0)
+      deltas[j] = mu_upper_mass - lower
       j -= 1
     else:
       mu_upper_mass += probs[i]
-- 
2.43.0


From 8b807cdf23465a9977933489d8a1653a1da7b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 10/47] fix: epsilon for delta ignores losses of probability
 zero

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 8065918..1fdb173 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -139,6 +139,9 @@ def _get_epsilon_for_delta(infinity_mass: float,
   mass_upper, mass_lower = infinity_mass, 0
 
   for loss, prob in zip(reversed_losses, probs):
+    if prob == 0:
+      # This loss never occurs, and so it does not constrain epsilon.
+      continue
     if (mass_upper > delta and mass_lower > 0 and math.log(
         (mass_upper - delta) / mass_lower) >= loss):
       # Epsilon is greater than or equal to loss.
-- 
2.43.0


From 43b53ab7cfd92f5cf334ed03f67fd3120eb5fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 11/47] fix: compose privacy loss distributions without finite
 privacy loss

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 1fdb173..57d9b8c 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -180,7 +180,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
     Tuple of (size of truncated prefix, truncated array, mass that goes to
     infinity).
   """
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or len(probs) == 0:
     return 0, probs, 0
 
   def _find_prefix_to_truncate(arr: np.ndarray, threshold: float) -> int:
@@ -193,7 +193,10 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
         return i
     return len(arr)
 
-  left_idx = _find_prefix_to_truncate(probs, tail_mass_truncation / 2)
+  # Keep at least one element, even when all of the mass could be truncated.
+  left_idx = min(
+      _find_prefix_to_truncate(probs, tail_mass_truncation / 2),
+      len(probs) - 1)
   right_idx = len(probs) - _find_prefix_to_truncate(
       np.flip(probs), tail_mass_truncation / 2)
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
@@ -360,6 +363,9 @@ class DensePLDPmf(PLDPmf):
     """See base class."""
     if num_times <= 0:
       raise ValueError(f'num_times should be >= 1, num_times={num_times}')
+    if self._infinity_mass >= 1:
+      # There is no finite privacy loss, and so neither has the composition.
+      return self
     lower_loss = self._lower_loss * num_times
     truncation_lower_bound, probs = common.self_convolve(
         self._probs, num_times, tail_mass_truncation)
@@ -548,7 +554,8 @@ class SparsePLDPmf(PLDPmf):
 
   def to_dense_pmf(self) -> DensePLDPmf:
     """"Converts to dense PMF."""
-    lower_loss, probs = common.dictionary_to_list(self._loss_probs)
+    # When there is no finite privacy loss, use a single loss of zero mass.
+    lower_loss, probs = common.dictionary_to_list(self._loss_probs or {0: 0.0})
     return DensePLDPmf(self._discretization, lower_loss, np.array(probs),
                        self._infinity_mass, self._pessimistic_estimate)
 
-- 
2.43.0


From 16df836cfbf08faaf263066a274945264c905443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 12/47] fix: a list of epsilons with several infinities is
 sorted

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 57d9b8c..5f391bf 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -76,7 +76,8 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   Returns:
     The list of epsilon-hockey stick divergences for epsilons.
   """
-  are_epsilons_sorted = np.all(np.diff(epsilons) >= 0)
+  epsilons = np.asarray(epsilons)
+  are_epsilons_sorted = np.all(epsilons[:-1] <= epsilons[1:])
   if not are_epsilons_sorted:
     raise ValueError(
         'Epsilons in get_delta_for_epsilon must be sorted in ascending order')
-- 
2.43.0


From 894dd4d130e9131885ee96419eb1eb6e2c6add76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 13/47] fix: delta from an infinite RDP order

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 655d835..2e3b561 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -202,7 +202,10 @@ def compute_delta(
       logdelta = -np.inf
     else:
       logdelta = 0.5 * math.log1p(-math.exp(-r))
-    if a > 1.01:
+    if np.isinf(a):
+      if r <= epsilon:  # Renyi DP of infinite order is pure DP.
+        logdelta = -np.inf
+    elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
       # The bound is also not useful for small alpha, so doesn't matter.
-- 
2.43.0


From bbdf759dedf00271a76fbfc4d30d6d0624833c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 14/47] fix: delta from tiny RDP values does not fail

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 2e3b561..3bd6f9e 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -201,7 +201,7 @@ def compute_delta(
     elif r == 0:
       logdelta = -np.inf
     else:
-      logdelta = 0.5 * math.log1p(-math.exp(-r))
+      logdelta = 0.5 * math.log(-math.expm1(-r))
     if np.isinf(a):
       if r <= epsilon:  # Renyi DP of infinite order is pure DP.
         logdelta = -np.inf
-- 
2.43.0


From 8eb666cbf05e53fff89d71f3059c138b94ae4fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 15/47] fix: inverse privacy loss of Gaussian mixtures with
 several sensitivities

---
 .../pld/privacy_loss_mechanism.py             | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..391652a 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1948,7 +1948,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
     self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
-    self._min_sens = np.min(nonzero_sens)
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
 
@@ -2303,19 +2302,16 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
-    # all the probability mass on non-zero sensitivities to either the
-    # smallest or largest sensitivity. We can show the privacy loss of the
-    # mixture is contained between these two mechanisms' privacy losses, and
-    # the subsampled Gaussian privacy loss is easy to invert. Then, we can
-    # compute the inverse privacy loss at min_pl and max_pl to get four
+    # all the probability mass on non-zero sensitivities to a single one of
+    # them. At each point, the privacy loss of the mixture is contained between
+    # the smallest and the largest of these mechanisms' privacy losses (which
+    # need not be those of the smallest or largest sensitivity), and the
+    # subsampled Gaussian privacy loss is easy to invert. Then, we can compute
+    # the inverse privacy loss at min_pl and max_pl for each of them to get
     # candidate bounds, and take the min/max of these bounds.
-    loss_bounds = np.array([min_pl, min_pl, max_pl, max_pl])
-    sens_bounds = np.array([
-        self._min_sens,
-        self._max_sens,
-        self._min_sens,
-        self._max_sens,
-    ])
+    nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
+    loss_bounds = np.repeat([min_pl, max_pl], len(nonzero_sens))
+    sens_bounds = np.tile(nonzero_sens, 2)
     if self.adjacency_type == AdjacencyType.ADD:
       pl_without_sampling = _pl_without_sampling_add
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
-- 
2.43.0


From 9c8151a8b19b6183b76473542f1af21375ee615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 16/47] fix: tail of Gaussian mixtures with equal sensitivities
 does not fail

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 391652a..d0303e5 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2099,6 +2099,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # The tail mass at the lower bound exceeds tail_mass, but only due to
+        # numerical errors.
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From 0313c559d812fa1de54a99a7e714bafee3857592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 17/47] fix: delta of Gaussian mixtures close to the largest
 privacy loss

---
 .../dp_accounting/pld/privacy_loss_mechanism.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d0303e5..4797315 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2280,8 +2280,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     # make sure all values in privacy_losses are in the proper range for the
     # given adjacency type.
 
-    # Some privacy losses might be close to the privacy loss at x = +/-inf, in
-    # which case we report the corresponding infinity for them.
+    # Some privacy losses might be equal, up to numerical errors, to the privacy
+    # loss at x = +/-inf, in which case we report the corresponding infinity for
+    # them.
+    is_close = functools.partial(np.isclose, rtol=1e-12, atol=1e-12)
     min_pl = privacy_losses[0]
     max_pl = privacy_losses[-1]
     log_1m_prob = (
@@ -2293,7 +2295,9 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'max of privacy_losses ({max_pl}) is larger than '
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
+      finite_indices = np.logical_not(is_close(privacy_losses, -log_1m_prob))
+      if not finite_indices.any():
+        return np.full_like(privacy_losses, -np.inf, dtype=float)
       max_pl = np.max(privacy_losses[finite_indices])
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
@@ -2301,7 +2305,9 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'min of privacy_losses ({min_pl}) is smaller than '
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
+      finite_indices = np.logical_not(is_close(privacy_losses, log_1m_prob))
+      if not finite_indices.any():
+        return np.full_like(privacy_losses, np.inf, dtype=float)
       min_pl = np.min(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
-- 
2.43.0


From eab5c87dc5d29d26960292fe8d1c1baf9870e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 18/47] fix: precision of Gaussian mixtures is relative to the
 standard deviation

---
 .../dp_accounting/pld/privacy_loss_mechanism.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 4797315..bf331db 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2257,17 +2257,21 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     Args:
       privacy_losses: the privacy losses we wish to invert, in increasing order.
-      precision: Precision of the output. In particular, for each entry l in
-        privacy_losses, we output the smallest multiple of precision, x, such
+      precision: Precision of the output, relative to the standard deviation. In
+        particular, for each entry l in privacy_losses, we output the smallest
+        multiple of precision * standard_deviation, x, such
         that the privacy loss at x is at most l. This ensures (i) given a
         monotonic privacy_losses, we return a monotonic list of xs, and (ii) the
         approximation results in an overestimate of epsilon, i.e. the final
         epsilon reported is valid.
 
     Returns:
-      For each l in privacy_losses, the smallest multiple of precision, x, such
-      that the privacy loss at x is at most l.
+      For each l in privacy_losses, the smallest multiple of
+      precision * standard_deviation, x, such that the privacy loss at x is at
+      most l.
     """
+    # The privacy loss depends on x only through x / standard_deviation.
+    precision = precision * self._standard_deviation
     if not (np.diff(privacy_losses) >= 0).all():
       raise ValueError(
           f'Expected non-decreasing privacy_losses, got: {privacy_losses}.'
-- 
2.43.0


From b2d756e0d852e5c5604c6b6d40cda227d9198e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 19/47] fix: Laplace PLD when the largest privacy loss is on
 the grid

---
 .../dp_accounting/pld/privacy_loss_distribution.py             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index b22df0f..ad52a8c 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -917,6 +917,9 @@ def _create_pld_pmf_from_monotone_privacy_loss(
       else:
         x = monotone_privacy_loss.inverse_privacy_loss(
             value_discretization_interval * rounded_down_value)
+        # Due to numerical errors, the privacy loss may (barely) not be attained
+        # within [lower_x, upper_x].
+        x = min(max(x, lower_x), upper_x)
 
       xs.append(x)
       rounded_values.append(round_fn(rounded_down_value + 0.5))
-- 
2.43.0


From 6d55cdbd2e3f1e351d9dc98194be9be1f96f6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 20/47] fix: calibration falls back to bisection when Brent's
 method does not converge

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..ee47b62 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -253,7 +253,8 @@ def calibrate_dp_mechanism(
         bracket_interval.endpoint_1,
         bracket_interval.endpoint_2,
         xtol=tol,
-        full_output=True)
+        full_output=True,
+        disp=False)
   except ValueError as err:
     raise ValueError(
         '`brentq` raised ValueError. This often means the supplied bracket '
-- 
2.43.0


From 7d9b7559c1f0832c148cae144f7e482aefb692da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 21/47] fix: calibration does not leave the bracket interval

---
 .../dp_accounting/mechanism_calibration.py     | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index ee47b62..532bfa9 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -247,6 +247,9 @@ def calibrate_dp_mechanism(
     raise TypeError(f'Unrecognized bracket_interval type: '
                     f'{type(bracket_interval)}')
 
+  lower = min(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+  upper = max(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+
   try:
     root, result = optimize.brentq(
         epsilon_gap,
@@ -269,21 +272,16 @@ def calibrate_dp_mechanism(
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
-        root += tol
-      elif epsilon_gap(root - tol) < 0:
-        root -= tol
+      if epsilon_gap(min(root + tol, upper)) < 0:
+        root = min(root + tol, upper)
+      elif epsilon_gap(max(root - tol, lower)) < 0:
+        root = max(root - tol, lower)
       else:
         root = None
 
   if root is None:
     # Fallback to custom bisection that guarantees root with non-positive value.
-    root = _bisect(
-        epsilon_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
-        tol,
-    )
+    root = _bisect(epsilon_gap, lower, upper, tol)
 
   if discrete:
     root = round(root)
-- 
2.43.0


From 3ffed1141ad809b2cab43b9995486bc044455b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 22/47] fix: smallest discrete Laplace noise is not misled by
 rounding

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..9f78094 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -132,11 +132,13 @@ def get_smallest_discrete_laplace_noise(
     parameter = 1 / inverse_parameter
     # Setting value_discretization_interval equal to parameter because the
     # privacy loss of discrete Laplace mechanism is always divisible by the
-    # parameter.
+    # parameter. Connect-the-dots makes this robust to numerical errors; rounding
+    # up could move a privacy loss to the next multiple of the parameter.
     return privacy_loss_distribution.from_discrete_laplace_mechanism(
         parameter,
         sensitivity=sensitivity,
-        value_discretization_interval=parameter)
+        value_discretization_interval=parameter,
+        use_connect_dots=True)
 
   # discrete Laplace mechanism with parameter
   # epsilon / (sensitivity * num_queries) is epsilon-DP (for num_queries
-- 
2.43.0


From 1f89617f4f95b6593217255b30ac7a28d9f51997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 23/47] fix: monotone search does not start below its lower
 bound

---
 python/dp_accounting/dp_accounting/pld/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..32b40df 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -96,6 +96,7 @@ def inverse_monotone_function(func: Callable[[float], float],
       return None
 
   if initial_guess_x is not None:
+    initial_guess_x = max(initial_guess_x, lower_x)
     while initial_guess_x < upper_x and check(func(initial_guess_x), value):
       lower_x = initial_guess_x
       initial_guess_x *= 2
-- 
2.43.0


From e02e8c83ea0e856ee7853814fe2f960a8f851c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 24/47] fix: precision and overflow of advanced composition

---
 .../dp_accounting/pld/accountant.py           | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 9f78094..78d2c82 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -16,6 +16,7 @@
 import math
 from typing import Callable, Optional
 
+import numpy as np
 from scipy import special
 
 from dp_accounting.pld import common
@@ -226,6 +227,11 @@ def get_smallest_subsampled_gaussian_noise(
   return parameter if parameter is not None else upper_bound
 
 
+def _log_one_minus(x: float) -> float:
+  """Returns log(1 - x), without loss of precision for small x."""
+  return math.log1p(-x) if x < 1 else -math.inf
+
+
 def advanced_composition(
     privacy_parameters: common.DifferentialPrivacyParameters,
     num_queries: int,
@@ -261,14 +267,19 @@ def advanced_composition(
   delta = privacy_parameters.delta
   k = num_queries
 
-  # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf
+  # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf. It
+  # is in log space, since the terms overflow for large epsilon or k, and since
+  # rounding 1 - delta would lose small values of delta.
+  log_normalizer = k * np.logaddexp(0, epsilon)
   for i in range(k // 2, -1, -1):
-    delta_i = 0
-    for l in range(i):
-      delta_i += special.binom(k, l) * (
-          math.exp(epsilon * (k - l)) - math.exp(epsilon * (k - 2 * i + l)))
-    delta_i /= ((1 + math.exp(epsilon))**k)
-    if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
+    l = np.arange(i)
+    log_binom = (special.gammaln(k + 1) - special.gammaln(l + 1)
+                 - special.gammaln(k - l + 1))
+    delta_i = np.sum(
+        np.exp(log_binom + epsilon * (k - l) - log_normalizer)
+        * -np.expm1(-2 * epsilon * (i - l)))
+    if (k * _log_one_minus(delta) + _log_one_minus(delta_i)
+        >= _log_one_minus(total_delta)):
       return epsilon * (k - 2 * i)
   return None
 
@@ -298,7 +309,8 @@ def get_smallest_epsilon_from_advanced_composition(
     1 - (1 - delta)^num_queries for which no guarantee of
     total_privacy_parameters DP is possible for any value of epsilon.
   """
-  if 1 - ((1 - delta) ** num_queries) > total_privacy_parameters.delta:
+  if (num_queries * _log_one_minus(delta)
+      < _log_one_minus(total_privacy_parameters.delta)):
     return None
 
   search_parameters = common.BinarySearchParameters(
-- 
2.43.0


From 2219e191de7f939b5f041007f4cd4dd9116a164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 25/47] fix: smallest epsilon from advanced composition is not
 lost to rounding

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 78d2c82..d4819cc 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -322,8 +322,10 @@ def get_smallest_epsilon_from_advanced_composition(
     return advanced_composition(privacy_parameters, num_queries,
                                 total_privacy_parameters.delta)
 
-  return common.inverse_monotone_function(
+  epsilon = common.inverse_monotone_function(
       get_total_epsilon_for_epsilon,
       total_privacy_parameters.epsilon,
       search_parameters,
       increasing=True)
+  # Basic composition applies, even when it fails numerically in the search.
+  return search_parameters.lower_bound if epsilon is None else epsilon
-- 
2.43.0


From a277451670bb252a0d54ca958f6a1db827a64354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 26/47] fix: discrete Gaussian noise smaller than the
 sensitivity

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index bf331db..d7739fa 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1543,7 +1543,9 @@ class DiscreteGaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
     if truncation_bound is None:
       # Tail bound from Canonne et al. ensures that the mass that gets truncated
       # is at most 1e-30. (See Proposition 1 in the supplementary material.)
-      self._truncation_bound = math.ceil(11.6 * sigma)
+      # Outputs of neighboring inputs must overlap.
+      self._truncation_bound = max(
+          math.ceil(11.6 * sigma), math.ceil(sensitivity / 2))
     else:
       self._truncation_bound = truncation_bound
 
-- 
2.43.0


From ed62ab8ed1e4aa9f2516aa9a2c33217eeb1443cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 27/47] fix: large epsilons of privacy parameters

---
 .../dp_accounting/pld/privacy_loss_distribution.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index ad52a8c..04102c1 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -1468,7 +1468,8 @@ def from_privacy_parameters(
       value_discretization_interval)] = (1 - delta) / (1 + math.exp(-epsilon))
   rounded_probability_mass_function[math.ceil(
       -epsilon /
-      value_discretization_interval)] += (1 - delta) / (1 + math.exp(epsilon))
+      value_discretization_interval)] += (
+          (1 - delta) * math.exp(-epsilon) / (1 + math.exp(-epsilon)))
 
   return PrivacyLossDistribution.create_from_rounded_probability(
       rounded_probability_mass_function, privacy_parameters.delta,
-- 
2.43.0


From 260d2ce5f2a3004cc4070737869b34eb51ccdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 28/47] fix: strings, ranges and nested containers in named
 tuples of events

---
 .../dp_accounting/dp_accounting/dp_event.py   | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..3b3d76b 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -109,21 +109,20 @@ class DpEvent(object):
     def _to_named_tuple(value):
       if attr.has(type(value)):
         value = value.to_named_tuple()
-      return value
-
-    values = {'module_name': cls.__module__, 'class_name': cls.__name__}
-    for key, value in attr.asdict(self, recurse=False).items():
-      if attr.has(type(value)):
-        value = _to_named_tuple(value)
       elif isinstance(value, Mapping):
         elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif (isinstance(value, Sequence)
+            and not isinstance(value, (str, bytes, range))):
         elements = [_to_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-      values[key] = value
+      return value
+
+    values = {'module_name': cls.__module__, 'class_name': cls.__name__}
+    for key, value in attr.asdict(self, recurse=False).items():
+      values[key] = _to_named_tuple(value)
 
     return _NamedTupleWrapper(**values)
 
@@ -149,23 +148,21 @@ class DpEvent(object):
     def _from_named_tuple(value):
       if isinstance(value, DpEventNamedTuple):
         value = DpEvent.from_named_tuple(value)
-      return value
-
-    fields = set(obj._fields) - set(['module_name', 'class_name'])
-    values = {}
-    for field in fields:
-      value = getattr(obj, field)
-      if isinstance(value, DpEventNamedTuple):
-        value = _from_named_tuple(value)
       elif isinstance(value, Mapping):
         elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif (isinstance(value, Sequence)
+            and not isinstance(value, (str, bytes, range))):
         elements = [_from_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-      values[field] = value
+      return value
+
+    fields = set(obj._fields) - set(['module_name', 'class_name'])
+    values = {}
+    for field in fields:
+      values[field] = _from_named_tuple(getattr(obj, field))
 
     module_name = obj.module_name
     if isinstance(module_name, bytes):
-- 
2.43.0


From 044ae1e9ff6395c1b145d6f0a3f02c1f33d8c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 29/47] fix: account for discrete Laplace noise in clustering

Counts are noised with discrete Laplace noise of parameter a but accounted for
as (continuous) Laplace noise of scale 1 / a, which reveals less: a clustering
with budget (10, 0.01) could cost a delta of 0.043. The calibrated Laplace
parameter is now converted to that of discrete Laplace noise which is no less
private, and back for validation.
---
 learning/clustering/clustering_params.py  |  3 +-
 learning/clustering/privacy_calculator.py | 36 +++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..a7b7815 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -78,7 +78,8 @@ class PrivacyCalculatorMultiplier():
   where gaussian_std_dev is used to calculate the sum Gaussian noise when
   adding points (used when averaging points), and laplace_param is used to
   calculate the discrete Laplace noise when counting points (used when averaging
-  points and constructing the tree).
+  points and constructing the tree): the discrete Laplace noise is as private as
+  Laplace noise with this parameter.
 
   All else fixed, increasing the multiplier corresponding to a given operation
   roughly shifts more noise towards those operations (and decreases noise for
diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index 1240238..d1d3ed5 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -28,10 +28,40 @@ from dp_accounting.pld import common
 from dp_accounting.pld import pld_privacy_accountant
 
 
+def get_discrete_laplace_param(laplace_param: float) -> float:
+  """Returns parameter of discrete Laplace noise that is as private.
+
+  Counts are integers with sensitivity 1, so discrete Laplace noise with
+  parameter a amounts to randomized response with probability 1 / (1 + e^a) of a
+  wrong answer. This reveals more than (continuous) Laplace noise with the same
+  parameter. It reveals no more than Laplace noise with parameter b if and only
+  if 1 / (1 + e^a) >= e^(-b / 2) / 2, where the error rates of the best test
+  between two neighboring counts are the same.
+
+  Args:
+    laplace_param: Inverse scale of (continuous) Laplace noise.
+  """
+  return laplace_param / 2 + np.log1p(-np.expm1(-laplace_param / 2))
+
+
+def get_continuous_laplace_param(discrete_laplace_param: float) -> float:
+  """Returns the inverse of get_discrete_laplace_param."""
+  return 2 * (
+      discrete_laplace_param + np.log1p(np.expm1(-discrete_laplace_param) / 2))
+
+
 def make_clustering_event(sum_std_dev: float, count_laplace_param: float,
                           sensitivity: float,
                           max_depth: int) -> dp_event.DpEvent:
-  """Returns a DpEvent for clustering."""
+  """Returns a DpEvent for clustering.
+
+  Args:
+    sum_std_dev: standard deviation of the Gaussian noise added to sums.
+    count_laplace_param: inverse scale of Laplace noise that is as private as
+      the discrete Laplace noise added to counts.
+    sensitivity: sensitivity of the dataset for the sum operations.
+    max_depth: max depth of the prefix tree for generating the coreset.
+  """
   builder = dp_event_builder.DpEventBuilder()
 
   if sum_std_dev == 0:
@@ -152,7 +182,7 @@ class PrivacyCalculator():
         multipliers.get_gaussian_std_dev(alpha, radius), radius
     )
     self.count_privacy_param = central_privacy_utils.CountPrivacyParam(
-        multipliers.get_laplace_param(alpha)
+        get_discrete_laplace_param(multipliers.get_laplace_param(alpha))
     )
 
   def validate_accounting(
@@ -166,7 +196,7 @@ class PrivacyCalculator():
 
     clustering_event = make_clustering_event(
         self.average_privacy_param.gaussian_standard_deviation,
-        self.count_privacy_param.laplace_param,
+        get_continuous_laplace_param(self.count_privacy_param.laplace_param),
         self.average_privacy_param.sensitivity,
         max_depth,
     )
-- 
2.43.0


From 7ec9abb669984c6bef83f64c6ac8943eab041561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 30/47] fix: clipping an empty dataset by radius

Clustering raised an error on an empty dataset, which tells it from datasets
with a point.
---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index a7b7815..0d6bcd6 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -195,7 +195,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From 824ff81a7a0cdd2bdd1cb90a1278df18b4353ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 31/47] fix: calibrating clusterings whose counts cost almost
 nothing

The lower end of the search for alpha is the smallest Gaussian noise within the
budget, which is only found up to an absolute tolerance and may be within the
budget together with the counts: the search then found no bracketing interval.
---
 learning/clustering/privacy_calculator.py | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index d1d3ed5..bbab7fd 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -126,6 +126,15 @@ def get_alpha_interval(
                                                      2 * lower_bound_alpha)
 
 
+def within_budget(
+    event: dp_event.DpEvent,
+    privacy_param: clustering_params.DifferentialPrivacyParam) -> bool:
+  """Returns whether an event is within the privacy budget."""
+  acct = pld_privacy_accountant.PLDAccountant()
+  acct.compose(event)
+  return acct.get_epsilon(privacy_param.delta) <= privacy_param.epsilon
+
+
 class PrivacyCalculator():
   """Calculates and returns privacy parameters.
 
@@ -167,15 +176,23 @@ class PrivacyCalculator():
       self.count_privacy_param = central_privacy_utils.CountPrivacyParam(np.inf)
       return
 
+    make_event_from_param = functools.partial(
+        make_clustering_event_from_param, multipliers, radius, max_depth
+    )
     interval = get_alpha_interval(privacy_param, radius, multipliers)
+    # The smallest Gaussian noise is only found up to a tolerance, so when the
+    # counts cost almost nothing it may already be more than what is needed.
+    lower_alpha = interval.lower_endpoint
+    while within_budget(make_event_from_param(lower_alpha), privacy_param):
+      lower_alpha /= 2
     alpha = mechanism_calibration.calibrate_dp_mechanism(
         pld_privacy_accountant.PLDAccountant,
-        make_event_from_param=functools.partial(
-            make_clustering_event_from_param, multipliers, radius, max_depth
-        ),
+        make_event_from_param=make_event_from_param,
         target_epsilon=privacy_param.epsilon,
         target_delta=privacy_param.delta,
-        bracket_interval=interval,
+        bracket_interval=mechanism_calibration.LowerEndpointAndGuess(
+            lower_alpha, interval.initial_guess
+        ),
     )
 
     self.average_privacy_param = central_privacy_utils.AveragePrivacyParam(
-- 
2.43.0


From f5787f9a515785d5cb56093faee510e1c01089a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 32/47] fix: refusal of clusterings that meet their budget
 exactly

Calibrated noise has an epsilon of at most the budget's, but the delta computed
at the budget's epsilon could still exceed the budget's by a rounding error, so
about one in a hundred budgets was refused.
---
 learning/clustering/privacy_calculator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index bbab7fd..a45dff7 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -226,9 +226,11 @@ class PrivacyCalculator():
     logging.debug('Accounted epsilon: %s', calculated_epsilon)
     logging.debug('Accounted delta: %s', calculated_delta)
 
+    # A budget that is met exactly may seem to be exceeded by rounding errors.
+    rounding = 1 + 1e-9
     if (
-        calculated_epsilon > privacy_param.epsilon
-        or calculated_delta > privacy_param.delta
+        calculated_epsilon > privacy_param.epsilon * rounding
+        or calculated_delta > privacy_param.delta * rounding
     ):
       raise ValueError(
           'Accounted privacy params greater than allowed: '
-- 
2.43.0


From bc8b4198650faec46ba25929f7eebf6bd465a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 33/47] fix: noise the auditorium's private mean when the
 noised count is negative

A negative noised count made the noise scale negative, which was raised to
1e-12: the mean was released without noise.
---
 python/dp_auditorium/dp_auditorium/mechanisms/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
index 5a20584..c6dea2d 100644
--- a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
+++ b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
@@ -102,7 +102,7 @@ class MeanMechanism:
         * np.abs(self._max_value - self._min_value)
         / self._epsilon_budget_scale
         / self._epsilon
-        / counts_for_noise_scale
+        / np.abs(counts_for_noise_scale)
     )
     noise_scale = np.maximum(_ZERO_TOLERANCE, noise_scale)
     return value_sum / counts_for_mean + self._noise_function(
-- 
2.43.0


From f70421967bc9700f92219f8642286ff6b6b336e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 34/47] fix: report a divergence estimate of zero to the Vizier
 study

A result of 0.0 was taken for no result: the trial was never completed and
the same datasets were tested again.
---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From 892e8154489e84165e5cfe80f9211ca0167a40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 35/47] fix: labels of generated classification datasets beyond
 the last class

num_classes labels are 0, ..., num_classes - 1; the study was also asked for
num_classes.
---
 .../generators/classification_dataset_generator.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
index 5036617..2f8e5cd 100644
--- a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
@@ -79,7 +79,7 @@ def _initialize_vizier_problem_and_params_lookup_table(
     problem.search_space.root.add_int_param(
         idx_to_str[i],
         min_value=0,
-        max_value=num_classes,
+        max_value=num_classes - 1,
     )
   return problem, str_to_idx
 
-- 
2.43.0


From a99ca57fff23175c043f52b3543efc4f24d26005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 36/47] fix: weights of the classes in the hockey-stick tester

With sample arrays of different lengths the classes were not weighted
1 : e^epsilon, and identical distributions were rejected.
---
 .../dp_auditorium/testers/hockey_stick_tester.py         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
index 1b61eae..84b1806 100644
--- a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
@@ -170,10 +170,11 @@ class HockeyStickPropertyTester(divergence_tester.DivergencePropertyTester):
     if len(samples1.shape) == 1:
       samples1 = samples1.reshape(-1, 1)
       samples2 = samples2.reshape(-1, 1)
-    samples1_final_ix = int(sample_cutoff_fraction * len(samples1))
-    samples2_initial_ix = int(sample_cutoff_fraction * len(samples2))
-    samples1 = samples1[0:samples1_final_ix, ...]
-    samples2 = samples2[samples2_initial_ix:, ...]
+    # With different sample sizes the classes would not have the weights above.
+    num_samples = min(len(samples1), len(samples2))
+    cutoff_ix = int(sample_cutoff_fraction * num_samples)
+    samples1 = samples1[0:cutoff_ix, ...]
+    samples2 = samples2[cutoff_ix:num_samples, ...]
 
     labels_1 = np.zeros((samples1.shape[0], 1))
     labels_2 = np.ones((samples2.shape[0], 1))
-- 
2.43.0


From 2052fba729ed010ebeeee3574fd62af66f65cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 37/47] fix: refusal of clusterings whose delta is off by
 rounding errors

---
 learning/clustering/privacy_calculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index a45dff7..5b88a86 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -226,8 +226,9 @@ class PrivacyCalculator():
     logging.debug('Accounted epsilon: %s', calculated_epsilon)
     logging.debug('Accounted delta: %s', calculated_delta)
 
-    # A budget that is met exactly may seem to be exceeded by rounding errors.
-    rounding = 1 + 1e-9
+    # A budget that is met exactly may seem to be exceeded by rounding errors,
+    # which delta magnifies when it is small.
+    rounding = 1 + 1e-6
     if (
         calculated_epsilon > privacy_param.epsilon * rounding
         or calculated_delta > privacy_param.delta * rounding
-- 
2.43.0


From c6f4e1e848a8509473b2750593cfa6ec2ce9f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 38/47] fix: evaluate PLDs whose privacy losses are beyond the
 range of exp

exp(-loss) under- or overflows for |loss| > 700, which made
get_epsilon_for_delta return infinity, get_delta_for_epsilon of several
epsilons overstate delta, and get_delta_for_epsilon_for_composed_pld return
nan. The lower mass is now kept relative to the last loss added to it.
---
 .../dp_accounting/pld/pld_pmf.py              | 48 +++++++++++--------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 5f391bf..c71e718 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -95,8 +95,10 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   # Denote sums in the last formula as mu_upper_mass, mu_lower_mass. We can
   # compute them gradually, which makes computation efficiently for multiple
   # epsilons.
+  # mu_lower_mass is kept multiplied by exp(last_loss), since exp(-loss)
+  # underflows for a large loss.
   deltas = np.zeros_like(epsilons, dtype=np.float64)
-  mu_upper_mass, mu_lower_mass = infinity_mass, 0
+  mu_upper_mass, mu_lower_mass, last_loss = infinity_mass, 0, 0
   i = len(probs) - 1
   j = len(epsilons) - 1
 
@@ -105,15 +107,17 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
       deltas[j] = infinity_mass
       j -= 1
     elif i < 0 or losses[i] <= epsilons[j]:
-      # Add in log space, since exp(epsilon) overflows for a large epsilon.
       lower = (
-          np.exp(epsilons[j] + np.log(mu_lower_mass)) if mu_lower_mass > 0 else
-          0)
+          np.exp(epsilons[j] - last_loss) * mu_lower_mass
+          if mu_lower_mass > 0 else 0)
       deltas[j] = mu_upper_mass - lower
       j -= 1
     else:
+      if mu_lower_mass > 0:
+        mu_lower_mass *= np.exp(losses[i] - last_loss)
       mu_upper_mass += probs[i]
-      mu_lower_mass += probs[i] * np.exp(-losses[i])
+      mu_lower_mass += probs[i]
+      last_loss = losses[i]
       i -= 1
 
   return deltas
@@ -137,28 +141,29 @@ def _get_epsilon_for_delta(infinity_mass: float,
   if infinity_mass > delta:
     return math.inf
 
-  mass_upper, mass_lower = infinity_mass, 0
+  # mass_lower is kept multiplied by exp(last_loss), since exp(-loss) underflows
+  # for a large loss.
+  mass_upper, mass_lower, last_loss = infinity_mass, 0, 0
 
   for loss, prob in zip(reversed_losses, probs):
     if prob == 0:
       # This loss never occurs, and so it does not constrain epsilon.
       continue
-    if (mass_upper > delta and mass_lower > 0 and math.log(
-        (mass_upper - delta) / mass_lower) >= loss):
+    if (mass_upper > delta and mass_lower > 0 and last_loss + math.log(
+        mass_upper - delta) - math.log(mass_lower) >= loss):
       # Epsilon is greater than or equal to loss.
       break
 
     mass_upper += prob
-    mass_lower += math.exp(-loss) * prob
+    if mass_lower > 0:
+      mass_lower *= math.exp(loss - last_loss)
+    mass_lower += prob
+    last_loss = loss
 
-    if mass_upper >= delta and mass_lower == 0:
-      # This only occurs when loss is very large, which results in exp(-loss)
-      # being treated as zero.
-      return max(0, loss)
-
-  if mass_upper <= mass_lower + delta:
+  if mass_upper <= delta:
     return 0
-  return math.log((mass_upper - delta) / mass_lower)
+  return max(
+      0, last_loss + math.log(mass_upper - delta) - math.log(mass_lower))
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
@@ -425,8 +430,11 @@ class DensePLDPmf(PLDPmf):
     if self_loss(len_self - 1) + other_loss(len_other - 1) <= epsilon:
       return delta
 
+    # lower_mass is kept multiplied by exp(other_loss(j)) for the last j added,
+    # since exp(-loss) under- or overflows for a loss far from zero.
     i, j = 0, len_other - 1
     upper_mass = lower_mass = 0
+    decay = np.exp(-discretization)
 
     # This is summation by i,j, such that self_loss(i) + other_loss(j) >=
     # epsilon, and self_loss(i) + other_loss(j-1)< epsilon, as in the
@@ -439,7 +447,7 @@ class DensePLDPmf(PLDPmf):
     # Else if j is too large then decrease it.
     while j >= 0 and self_loss(i) + other_loss(j - 1) >= epsilon:
       upper_mass += other_probs[j]
-      lower_mass += other_probs[j] * np.exp(-other_loss(j))
+      lower_mass = lower_mass * decay + other_probs[j]
       j -= 1
 
     # Invariant:
@@ -448,10 +456,12 @@ class DensePLDPmf(PLDPmf):
     for i in range(i, len_self):
       if j >= 0:
         upper_mass += other_probs[j]
-        lower_mass += other_probs[j] * np.exp(-other_loss(j))
+        lower_mass = lower_mass * decay + other_probs[j]
+      last_loss = other_loss(max(j, 0))
       j -= 1
       delta += self_probs[i] * (
-          upper_mass - np.exp(epsilon - self_loss(i)) * lower_mass)
+          upper_mass
+          - np.exp(epsilon - self_loss(i) - last_loss) * lower_mass)
 
     return delta
 
-- 
2.43.0


From e1c0982673d4e5680ef12e610a67cf05dcf5556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 39/47] fix: leave the accountant unchanged if composing an
 event fails

An event whose parameters turn out to be invalid stayed in the ledger, and the
subevents before the invalid one in the guarantee.
---
 .../dp_accounting/privacy_accountant.py             | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/privacy_accountant.py b/python/dp_accounting/dp_accounting/privacy_accountant.py
index 2ea9d92..1284e81 100644
--- a/python/dp_accounting/dp_accounting/privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/privacy_accountant.py
@@ -14,6 +14,7 @@
 """PrivacyAccountant abstract base class."""
 
 import abc
+import copy
 import enum
 from typing import Any, Optional
 
@@ -125,8 +126,18 @@ class PrivacyAccountant(metaclass=abc.ABCMeta):
           f'Unsupported event: {event}. Error: '
           f'[{composition_error.error_message}] caused by subevent '
           f'{composition_error.invalid_event}.')
+    # Raises before anything has changed if the count is invalid.
+    dp_event_builder.DpEventBuilder().compose(event, count)
+    state = copy.deepcopy(
+        {k: v for k, v in vars(self).items() if k != '_ledger'})
+    try:
+      self._maybe_compose(event, count, True)
+    except BaseException:
+      # Parameters of a subevent may turn out to be invalid after other
+      # subevents have been composed.
+      vars(self).update(state)
+      raise
     self._ledger.compose(event, count)
-    self._maybe_compose(event, count, True)
     return self
 
   @property
-- 
2.43.0


From 03c137eefecd4852bf5117e9197f72f388e97fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 40/47] fix: mixtures without a zero sensitivity have a
 sampling probability of exactly 1

---
 .../dp_accounting/pld/privacy_loss_mechanism.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d7739fa..cd988e4 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1948,7 +1948,12 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     # Constant properties.
     self._log_sampling_probs = np.log(self.sampling_probs)
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
-    self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
+    if np.all(self.sensitivities > 0.0):
+      # The sum of the probabilities may differ from 1 by a rounding error, but
+      # without a zero sensitivity the privacy loss is unbounded.
+      self._sampling_prob = 1.0
+    else:
+      self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
-- 
2.43.0


From ede9b1e0631e846c4977de93d13a47bd9ff3931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 41/47] fix: mixtures of Gaussians whose positive sensitivities
 have probability zero reveal nothing

---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 15f93d9..f7e7339 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -107,7 +107,10 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.MixtureOfGaussiansDpEvent):
       if do_compose:
-        if len(event.sensitivities) == 1 and event.sensitivities[0] == 0.0:
+        if len(event.sensitivities) == len(event.sampling_probs) and all(
+            s == 0 or p == 0
+            for s, p in zip(event.sensitivities, event.sampling_probs)):
+          # The output does not depend on the input.
           pass
         elif event.standard_deviation == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From eb14c49da1e1d5d6ad13834070bd2ecfc1db394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 42/47] fix: calibration bisection stops when the tolerance is
 below the float spacing

---
 .../dp_accounting/dp_accounting/mechanism_calibration.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 532bfa9..4e25280 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -135,10 +135,13 @@ def _bisect(
   if lower_value * upper_value > 0:
     raise ValueError('Values must have opposite signs.')
 
-  if upper - lower <= tol:
+  middle = (lower + upper) / 2
+
+  # If there is no float strictly between the endpoints, tol is unattainable and
+  # bisecting further would never terminate.
+  if upper - lower <= tol or not lower < middle < upper:
     return lower if lower_value < 0 else upper
 
-  middle = (lower + upper) / 2
   middle_value = function(middle)
 
   if middle_value == 0:
-- 
2.43.0


From b80df566602f96e079dc09c099335f1447adb120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:22 +0000
Subject: [PATCH 43/47] fix: histogram tester rejects only estimates that
 exceed delta

interfaces.PropertyTester.reject_property promises True when the lower bound
exceeds the expected divergence, as the other testers do; a bound equal to
delta is no evidence of a violation.
---
 python/dp_auditorium/dp_auditorium/testers/histogram_tester.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/histogram_tester.py b/python/dp_auditorium/dp_auditorium/testers/histogram_tester.py
index 83b4fc0..e2aea4b 100644
--- a/python/dp_auditorium/dp_auditorium/testers/histogram_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/histogram_tester.py
@@ -199,4 +199,4 @@ class HistogramTester(interfaces.PropertyTester):
 
   @override
   def reject_property(self, lower_bound: float) -> bool:
-    return lower_bound >= self._delta
+    return lower_bound > self._delta
-- 
2.43.0


From 42c6ff827781621023dd189aad84e27afd915f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:13 +0000
Subject: [PATCH 44/47] fix: Count.PreThresholdedResult uses up the object also
 below the pre-threshold

---
 go/dpagg/count.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 0925b8d..7268f7b 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -225,20 +225,21 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	if preThreshold < 1 {
 		preThreshold = 1
 	}
-	// Pre-thresholding guarantees that at least this number of unique contributions are in the
-	// partition.
-	if c.count < preThreshold {
-		return nil, nil
-	}
 
 	threshold, err := c.Noise.Threshold(c.l0Sensitivity, float64(c.lInfSensitivity), c.epsilon, c.delta, thresholdDelta)
 	if err != nil {
 		return nil, err
 	}
+	// The result is computed before pre-thresholding so that the object is used up either way.
 	result, err := c.Result()
 	if err != nil {
 		return nil, err
 	}
+	// Pre-thresholding guarantees that at least this number of unique contributions are in the
+	// partition.
+	if c.count < preThreshold {
+		return nil, nil
+	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
 	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
-- 
2.43.0


From 4850416cd1736dfd56167af8f7a683c476219967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:13 +0000
Subject: [PATCH 45/47] fix: a deserialized PreAggSelectPartition is usable
 however often it was serialized

---
 go/dpagg/select_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 4b67612..833d89b 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -428,7 +428,7 @@ func (s *PreAggSelectPartition) GobDecode(data []byte) error {
 		delta:         enc.Delta,
 		l0Sensitivity: enc.L0Sensitivity,
 		idCount:       enc.IDCount,
-		state:         enc.State,
+		state:         defaultState,
 		preThreshold:  enc.PreThreshold,
 	}
 	return nil
-- 
2.43.0


From 8e3bfea94839d3faf483f837a5c6d556956dfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:13 +0000
Subject: [PATCH 46/47] fix: bounds and sensitivity checks apply when the noise
 defaults to Laplace

---
 go/dpagg/mean.go     | 2 +-
 go/dpagg/sum.go      | 8 ++++----
 go/dpagg/variance.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/go/dpagg/mean.go b/go/dpagg/mean.go
index 15f0ca7..24ded9c 100644
--- a/go/dpagg/mean.go
+++ b/go/dpagg/mean.go
@@ -111,7 +111,7 @@ func NewBoundedMean(opt *BoundedMeanOptions) (*BoundedMean, error) {
 	if lower == 0 && upper == 0 {
 		return nil, fmt.Errorf("NewBoundedMean: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsFloat64IgnoreOverflows(lower, upper)
 	default:
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 2c1f8b4..97c142d 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -112,7 +112,7 @@ func NewBoundedSumInt64(opt *BoundedSumInt64Options) (*BoundedSumInt64, error) {
 		return nil, fmt.Errorf("NewBoundedSumInt64: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
 	var err error
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsInt64IgnoreOverflows(lower, upper)
 	default:
@@ -123,7 +123,7 @@ func NewBoundedSumInt64(opt *BoundedSumInt64Options) (*BoundedSumInt64, error) {
 	}
 	lInf, err := getLInfInt(lower, upper, maxContributionsPerPartition)
 	if err != nil {
-		if noise.ToKind(opt.Noise) == noise.Unrecognised {
+		if noise.ToKind(n) == noise.Unrecognised {
 			// Ignore sensitivity overflows if noise is not recognised.
 			log.Warningf("NewBoundedSumInt64: getLInfInt failed with %q, using largest representable integer as lInf_sensitivity", err.Error())
 		} else {
@@ -438,7 +438,7 @@ func NewBoundedSumFloat64(opt *BoundedSumFloat64Options) (*BoundedSumFloat64, er
 		return nil, fmt.Errorf("NewBoundedSumFloat64: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
 	var err error
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsFloat64IgnoreOverflows(lower, upper)
 	default:
@@ -449,7 +449,7 @@ func NewBoundedSumFloat64(opt *BoundedSumFloat64Options) (*BoundedSumFloat64, er
 	}
 	lInf, err := getLInfFloat(lower, upper, maxContributionsPerPartition)
 	if err != nil {
-		if noise.ToKind(opt.Noise) == noise.Unrecognised {
+		if noise.ToKind(n) == noise.Unrecognised {
 			// Ignore sensitivity overflows if noise is not recognised.
 			log.Warningf("NewBoundedSumFloat64: getLInfFloat failed with %q, using largest representable integer as lInf_sensitivity", err.Error())
 		} else {
diff --git a/go/dpagg/variance.go b/go/dpagg/variance.go
index 7cde595..01a4b52 100644
--- a/go/dpagg/variance.go
+++ b/go/dpagg/variance.go
@@ -108,7 +108,7 @@ func NewBoundedVariance(opt *BoundedVarianceOptions) (*BoundedVariance, error) {
 	if lower == 0 && upper == 0 {
 		return nil, fmt.Errorf("NewBoundedVariance: Lower and  Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		if err := checks.CheckBoundsFloat64IgnoreOverflows(lower, upper); err != nil {
 			return nil, fmt.Errorf("NewBoundedVariance: CheckBoundFloat64IgnoreOverflows: %w", err)
-- 
2.43.0


From 6d72dfb3d27ccc5824e77edcf7b643d36a0fabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:13 +0000
Subject: [PATCH 47/47] fix: refuse an L1 sensitivity that overflows int64 in
 Laplace AddNoiseInt64

---
 go/noise/laplace_noise.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index 1bc33fe..7a03aaa 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/google/differential-privacy/go/v3/checks"
@@ -71,6 +72,9 @@ func (laplace) AddNoiseInt64(x, l0Sensitivity, lInfSensitivity int64, epsilon, d
 	if err := checkArgsLaplace(l0Sensitivity, float64(lInfSensitivity), epsilon, delta); err != nil {
 		return 0, err
 	}
+	if lInfSensitivity > math.MaxInt64/l0Sensitivity {
+		return 0, fmt.Errorf("L1 sensitivity %d * %d (L0 * LInf) must fit in an int64", l0Sensitivity, lInfSensitivity)
+	}
 	return addLaplaceInt64(x, epsilon, lInfSensitivity*l0Sensitivity /* l1Sensitivity */), nil
 }
 
-- 
2.43.0

