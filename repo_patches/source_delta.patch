From 11b2e229efeae95470f1b8959013c4fcfa562641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 01/37] fix: propagate every function registered for a plugin
 module

The dictionary of arbitrary functions was keyed by the module, so all but the
last function registered for a module were silently dropped.
---
 gwpopulation/backend.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..d3556cb 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -59,7 +59,7 @@ def modules_to_update():
         (:code:`scipy.special`).
     others: dict
         Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        from :code:`scipy` and the list of functions for each of them.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for key, value in other_entries:
+        others.setdefault(key, list()).append(value)
     return all_with_xp, all_with_scs, others
 
 
@@ -148,9 +150,10 @@ def set_backend(backend="numpy"):
         setattr(import_module(module), "xp", xp)
     for module in all_with_scs:
         setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
-            import_module(module),
-            func.split(".")[-1],
-            _load_arbitrary(func, backend),
-        )
+    for module, funcs in others.items():
+        for func in funcs:
+            setattr(
+                import_module(module),
+                func.split(".")[-1],
+                _load_arbitrary(func, backend),
+            )
-- 
2.43.0


From ef14f9f4c622ec2045f5c28bf2f518770ca8ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 02/37] fix: do not leave a failed backend change half applied

The active backend was recorded before the registered modules were updated.
If one of them could not be imported, some modules had been switched, others
not, and a second call with the same backend was silently ignored.
---
 gwpopulation/backend.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index d3556cb..4c5a335 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -144,16 +144,14 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, funcs in others.items():
-        for func in funcs:
-            setattr(
-                import_module(module),
-                func.split(".")[-1],
-                _load_arbitrary(func, backend),
-            )
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
+        for module, funcs in others.items()
+        for func in funcs
+    ]
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From ad06a944bea8085e214f597053cd34263c6fbed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 03/37] fix: allow a power law with spectral index one

The special case of the normalization is alpha = -1 and it is handled, alpha = 1
is a regular value that was rejected with the numpy backend.
---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..d535a02 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From c2ba9fefc8396f6b1112bc8910ec7af1f038dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 04/37] fix: determinant of the covariance matrix of the 2d
 Gaussian

The determinant of the documented covariance matrix is
sigma_x^2 sigma_y^2 (1 - rho^2).
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index d535a02..8297e66 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -217,7 +217,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From b66df268a512aade68e1d899697ae8a8a0588431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 05/37] fix: do not modify the arrays passed to
 mu_var_max_to_alpha_beta_max

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From 6ddd7293a1e860cb5fb88febf6834731623021f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 06/37] fix: do not remove the sensitivity from the data passed
 to GridVT

The same dictionary could not be used twice.
---
 gwpopulation/vt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..cdc9f01 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,7 +85,8 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
-        self.vts = xp.asarray(data.pop("vt"))
+        self.vts = xp.asarray(data["vt"])
+        data = {key: value for key, value in data.items() if key != "vt"}
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
-- 
2.43.0


From 3141ab2378782e9083bff2046f3753ea58ae3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 07/37] fix: identify the axes of grids with equal side lengths
 in GridVT

The axis of a parameter was identified by its length alone, so with two axes of
the same length only one was integrated over.
---
 gwpopulation/vt.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index cdc9f01..c2c081d 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -91,7 +91,17 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        varies = {
+            key: [
+                bool(xp.any(xp.diff(self.data[key], axis=axis) != 0))
+                for axis in range(len(shape))
+            ]
+            for key in self.data
+        }
+        self.axes = {
+            int(np.argmax((shape == lens[key]) * (1 + np.array(varies[key])))): key
+            for key in self.data
+        }
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From 7eb469434e5f4eb5fa32117b168a1d0d4f8708f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 08/37] fix: compare the maximum uncertainty with the
 uncertainty, not the variance

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..8ba8cc0 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From 7a25db85b01fdb36d956deefa7022f11672445dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 09/37] fix: variance of the selection term of the rate
 likelihood

The term is N_exp = R P_det, so the variance is R^2 sigma^2_det.
---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 8ba8cc0..6ac4219 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -454,7 +454,7 @@ class RateLikelihood(HyperparameterLikelihood):
 
         .. math::
 
-            \sigma^2 = \frac{N_{\rm exp}(\Lambda) \sigma^2_{\rm det}}{P_{\rm det}^2}
+            \sigma^2 = \frac{N_{\rm exp}^2(\Lambda) \sigma^2_{\rm det}}{P_{\rm det}^2}
 
         Parameters
         ----------
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = n_expected**2 * variance / selection**2
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 37c96cee0aefe093ee3ed19f355c883178d9eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 10/37] fix: total variance in the extra statistics of the rate
 likelihood

Use the same contribution from the selection function as the likelihood.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 6ac4219..d0eb59d 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -267,7 +267,7 @@ class HyperparameterLikelihood(Likelihood):
             parameters=parameters
         )
         variance /= selection**2
-        selection_variance = variance * self.n_posteriors**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
         total_variance += selection_variance
-- 
2.43.0


From 01f61d74ac01f4d3927b573f618a51c22f79af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 11/37] fix: convert detector-frame masses given before the
 redshift

Without a luminosity distance the conversion depended on the order of the keys.
---
 gwpopulation/experimental/cosmo_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..8eb08c9 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -105,6 +105,7 @@ class CosmoMixin:
                 "Either luminosity_distance or redshift must be provided in data for detector frame to source frame samples conversion"
             )
         else:
+            samples["redshift"] = data["redshift"]
             jacobian = xp.ones(data["redshift"].shape)
 
         for key in list(data.keys()):
-- 
2.43.0


From 8c076b3850e1a791d16f50a22e06126a6e5982cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 12/37] fix: weights of an event in the numpyro predictive
 resampling

The weights are indexed by event and then sample, as the data are.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..d001cbd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From f24de213946c6e7efa550a7cd7155af8bfd28333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 13/37] fix: rate of the Gamma distribution for the merger rate

The second argument of the numpyro Gamma distribution is the inverse scale.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index d001cbd..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From c7c23005f3ee1f02d760442d708342ad4fa60f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 14/37] fix: keep the configuration of a spline model when
 inferring the nodes

The range, order, and regularization were reset to the default values.
---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From c036d390e20a97bfe60fd617eacc6551c98b1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 15/37] fix: do not modify the variable names of the primary
 mass model

---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..5cf6c9b 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,7 +551,7 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
+        vars = list(vars) + ["beta", "delta_m"]
         vars = set(vars).difference(self.kwargs.keys())
         return vars
 
-- 
2.43.0


From 6978375f373a4fd75e61d686e21c463b7484107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:51 +0000
Subject: [PATCH 16/37] fix: rate samples for selection functions that return
 an uncertainty

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index d0eb59d..4113719 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -307,7 +307,7 @@ class HyperparameterLikelihood(Likelihood):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From a45f2768dc17e07503c7a07e3a9fa0cea77b9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:11 +0000
Subject: [PATCH 17/37] fix: power law with a lower bound of zero

The unused special case for alpha = -1 raised a ZeroDivisionError for an allowed
lower bound of zero.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 8297e66..f603eef 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -121,7 +121,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / xp.log(high / xp.array(low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From 8cdcd602aa2247fc96862497c5aeb51703c72e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:27 +0000
Subject: [PATCH 18/37] fix: reject parameters with an infinite likelihood
 estimate

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 4113719..d3bf0fe 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -179,7 +179,7 @@ class HyperparameterLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
-        ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
+        ln_l = xp.nan_to_num(ln_l, nan=-xp.inf, posinf=-xp.inf)
         ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
-- 
2.43.0


From 34adf6edcff1275b2629b7e70d257194b36a4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:27 +0000
Subject: [PATCH 19/37] fix: uncertainty of the rate likelihood for vanishing
 detection probability

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index d3bf0fe..612af78 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected**2 * variance / selection**2
+            total_variance = parameters["rate"] ** 2 * variance
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 892edf66e78c005f3da4877c86dd9a8ff611e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:38 +0000
Subject: [PATCH 20/37] fix: uncertainty-marginalised selection without
 uncertainty or support

---
 gwpopulation/vt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index c2c081d..3cbbbcb 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -237,11 +237,10 @@ class ResamplingVT(_BaseVT):
             The uncertainty-marginalized vt_factor
         """
         mu, var = self.detection_efficiency(parameters)
-        _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
+        converged, _ = self.check_convergence(mu, var)
+        n_effective = xp.divide(mu**2, var)
         vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
-        vt_factor += correction
-        return vt_factor
+        return to_number(xp.where(converged, vt_factor, xp.inf), float)
 
     def detection_efficiency(self, parameters):
         r"""
-- 
2.43.0


From 6e60cf653936d5d04ab0930c0a5b84d983426e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:35 +0000
Subject: [PATCH 21/37] fix: do not cache population models wrapped with the
 jax backend

The cache of the hyper model holds on to tracers, so that a likelihood or
selection function built from a function fails when it is compiled again or
evaluated after being compiled.
---
 gwpopulation/hyperpe.py | 3 ++-
 gwpopulation/vt.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 612af78..615a8b9 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -111,7 +111,8 @@ class HyperparameterLikelihood(Likelihood):
         self.data = self.resample_posteriors(posteriors, max_samples=max_samples)
 
         if isinstance(hyper_prior, types.FunctionType):
-            hyper_prior = Model([hyper_prior])
+            # caching of the model is not compatible with jit compilation
+            hyper_prior = Model([hyper_prior], cache="jax" not in xp.__name__)
         elif not (
             hasattr(hyper_prior, "parameters")
             and callable(getattr(hyper_prior, "prob"))
diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 3cbbbcb..eed7cb1 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -61,10 +61,12 @@ __all__ = [
 class _BaseVT:
     def __init__(self, model, data):
         self.data = {key: xp.asarray(value) for key, value in data.items()}
+        # caching of the model is not compatible with jit compilation
+        cache = "jax" not in xp.__name__
         if isinstance(model, list):
-            model = Model(model)
+            model = Model(model, cache=cache)
         elif not isinstance(model, Model):
-            model = Model([model])
+            model = Model([model], cache=cache)
         self.model = model
 
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From 01f652af942e6f59c03b69833c549df8441b01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:13 +0000
Subject: [PATCH 22/37] fix: do not let the conversion function modify the
 caller's parameters

The extra statistics and the predictive resampling already hand a copy to the
conversion function.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 615a8b9..35072e4 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -165,7 +165,7 @@ class HyperparameterLikelihood(Likelihood):
         """
         Compute the ln likelihood estimator and its variance.
         """
-        parameters, added_keys = self.conversion_function(parameters)
+        parameters, added_keys = self.conversion_function(parameters.copy())
         ln_bayes_factors, variances = self._compute_per_event_ln_bayes_factors(
             parameters
         )
-- 
2.43.0


From 0b6443d003037d819f1dde837b87b90ec769661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:36 +0000
Subject: [PATCH 23/37] fix: do not modify the value returned by the selection
 function

The relative variance in the extra statistics was computed in place, which
changed arrays held by the selection function and the total variance.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 35072e4..d9da1f9 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -267,7 +267,7 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
+        variance = variance / selection**2
         _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
-- 
2.43.0


From e2006587fb560cee3c8a586b5d5baae100f39e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:24 +0000
Subject: [PATCH 24/37] fix: do not keep tracers in the cached interpolants of
 the models

---
 gwpopulation/models/interped.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..566bcbf 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -36,10 +36,18 @@ def _setup_interpolant(nodes, values, kind="cubic", backend=None):
     if backend is None:
         backend = xp
 
+    if "jax" in backend.__name__:
+        # the cached quantities must not be tracers as they outlive the trace
+        from jax import ensure_compile_time_eval as context
+    else:
+        from contextlib import nullcontext as context
+
     nodes = to_numpy(nodes)
-    interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
-    interpolant.conversion = backend.array(interpolant.conversion)
-    interpolant = partial(interpolant, backend.array(values))
+    with context():
+        interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
+        interpolant.conversion = backend.array(interpolant.conversion)
+        interpolant = partial(interpolant, backend.array(values))
+        interpolant()
     return interpolant
 
 
-- 
2.43.0


From 2f649a6c41f13e281cef6ca5169c76c423ce5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:12 +0000
Subject: [PATCH 25/37] fix: keyword arguments of the jitted likelihood
 function

---
 gwpopulation/experimental/jax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..0625560 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -56,11 +56,11 @@ class JittedLikelihood(Likelihood):
             kwargs = dict()
         self.kwargs = kwargs
         self._likelihood = likelihood
-        self.likelihood_func = jit(partial(likelihood_func, likelihood))
+        self.likelihood_func = jit(partial(likelihood_func, likelihood, **kwargs))
         super().__init__()
 
     def __getattr__(self, name):
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-        return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+        return float(np.nan_to_num(self.likelihood_func(parameters)))
-- 
2.43.0


From 7639fc638378aa9876798a70c9b35b95c0193af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:57 +0000
Subject: [PATCH 26/37] fix: noise likelihood and metadata of the jitted
 likelihood

---
 gwpopulation/experimental/jax.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0625560..691cdf3 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -64,3 +64,13 @@ class JittedLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         return float(np.nan_to_num(self.likelihood_func(parameters)))
+
+    def noise_log_likelihood(self):
+        return self._likelihood.noise_log_likelihood()
+
+    def log_likelihood(self, parameters):
+        return self.noise_log_likelihood() + self.log_likelihood_ratio(parameters)
+
+    @property
+    def meta_data(self):
+        return self._likelihood.meta_data
-- 
2.43.0


From d4870190706fe2dbae720c3fab0cdad6f74d0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:29 +0000
Subject: [PATCH 27/37] fix: predictive resampling of injections with scalar
 metadata

---
 gwpopulation/experimental/numpyro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..38379b4 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -139,7 +139,8 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        # scalars, e.g., the number of generated injections, are not samples
+        fit_keys = [key for key in data if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From 887eb899dae25e173513413ee90e533ff5093118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 28/37] fix: power law with integer hyperparameters under jit

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index f603eef..9f56c42 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -122,7 +122,7 @@ def powerlaw(xx, alpha, high, low):
     norm = xp.where(
         xp.array(alpha) == -1,
         1 / xp.log(high / xp.array(low)),
-        (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
+        (1 + alpha) / xp.array(high ** (1.0 + alpha) - low ** (1.0 + alpha)),
     )
     prob = xp.power(xx, alpha)
     prob *= norm
-- 
2.43.0


From 307c615cff96496377e0062f02f8482988f72248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 29/37] fix: Madau-Dickinson rate with integer hyperparameters
 under jit

---
 gwpopulation/models/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/redshift.py b/gwpopulation/models/redshift.py
index 6444b7d..1cf3dbc 100644
--- a/gwpopulation/models/redshift.py
+++ b/gwpopulation/models/redshift.py
@@ -245,7 +245,7 @@ class MadauDickinsonRedshift(_Redshift):
         psi_of_z = (1 + redshift) ** gamma / (
             1 + ((1 + redshift) / (1 + z_peak)) ** kappa
         )
-        psi_of_z *= 1 + (1 + z_peak) ** (-kappa)
+        psi_of_z *= 1 + (1.0 + z_peak) ** (-kappa)
         return psi_of_z
 
 
-- 
2.43.0


From 53c6e15fffb0472613b86e2daef98f736c2bf03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:39 +0000
Subject: [PATCH 30/37] fix: frame conversion of data with both a distance and
 a redshift

---
 gwpopulation/experimental/cosmo_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 8eb08c9..2e7b5fc 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -105,9 +105,11 @@ class CosmoMixin:
                 "Either luminosity_distance or redshift must be provided in data for detector frame to source frame samples conversion"
             )
         else:
-            samples["redshift"] = data["redshift"]
             jacobian = xp.ones(data["redshift"].shape)
 
+        if "redshift" in data:
+            samples["redshift"] = data["redshift"]
+
         for key in list(data.keys()):
             if key.endswith("_detector"):
                 samples[key[:-9]] = data[key] / (1 + samples["redshift"])
-- 
2.43.0


From 3715695a4eea3fb30dd7ed3e422d6329b4a42b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 31/37] fix: copies of JittedLikelihood

---
 gwpopulation/experimental/jax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 691cdf3..3d51512 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -60,6 +60,9 @@ class JittedLikelihood(Likelihood):
         super().__init__()
 
     def __getattr__(self, name):
+        if name == "_likelihood":
+            # not set yet, e.g., while the object is being copied
+            raise AttributeError(name)
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-- 
2.43.0


From ab4107345533426bf1d9da3e651264ca6b8a10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 32/37] fix: rate posterior samples with a conversion function

---
 gwpopulation/hyperpe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index d9da1f9..2032f22 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -302,6 +302,7 @@ class HyperparameterLikelihood(Likelihood):
         """
         from scipy.stats import gamma
 
+        parameters, added_keys = self.conversion_function(parameters.copy())
         if hasattr(self.selection_function, "detection_efficiency") and hasattr(
             self.selection_function, "surveyed_hypervolume"
         ):
-- 
2.43.0


From c8cf7e2a682dcbfb17a69ccf6b0b648ac6a3ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 33/37] fix: spline models with integer node values

---
 gwpopulation/models/interped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 566bcbf..7c6e162 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -206,10 +206,10 @@ class InterpolatedNoBaseModelIdentical:
         x_splines: array-like
             The positions of the spline nodes
         """
-        f_splines = xp.array([kwargs[key] for key in self.fkeys])
+        f_splines = xp.array([kwargs[key] for key in self.fkeys], dtype=float)
         if self.regularize:
             f_splines *= kwargs[f"rms{self.base}"] / xp.mean(f_splines**2) ** 0.5
-        x_splines = xp.array([kwargs[key] for key in self.xkeys])
+        x_splines = xp.array([kwargs[key] for key in self.xkeys], dtype=float)
         return f_splines, x_splines
 
     def p_x_identical(self, dataset, **kwargs):
-- 
2.43.0


From 2f6bb39e01400d8cb7240d3ae9002d12bb7b258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 34/37] fix: redshift models at integer typed redshifts

---
 gwpopulation/models/redshift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/redshift.py b/gwpopulation/models/redshift.py
index 1cf3dbc..7fd9c37 100644
--- a/gwpopulation/models/redshift.py
+++ b/gwpopulation/models/redshift.py
@@ -212,7 +212,7 @@ class PowerLawRedshift(_Redshift):
         lamb: float
             The spectral index :math:`\lambda`.
         """
-        return (1 + redshift) ** parameters["lamb"]
+        return (1.0 + redshift) ** parameters["lamb"]
 
 
 class MadauDickinsonRedshift(_Redshift):
@@ -242,7 +242,7 @@ class MadauDickinsonRedshift(_Redshift):
         gamma = parameters["gamma"]
         kappa = parameters["kappa"]
         z_peak = parameters["z_peak"]
-        psi_of_z = (1 + redshift) ** gamma / (
+        psi_of_z = (1.0 + redshift) ** gamma / (
             1 + ((1 + redshift) / (1 + z_peak)) ** kappa
         )
         psi_of_z *= 1 + (1.0 + z_peak) ** (-kappa)
-- 
2.43.0


From 673dbbda7dcfd89567a4148ffab72f3743b89831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 35/37] fix: beta distribution at its end points

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 9f56c42..4638d68 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From c4815c7dcc5c3d7a8de87a55457b9b3ae73fc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:34 +0000
Subject: [PATCH 36/37] fix: power law at integer typed points

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 4638d68..3c5578a 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -124,7 +124,7 @@ def powerlaw(xx, alpha, high, low):
         1 / xp.log(high / xp.array(low)),
         (1 + alpha) / xp.array(high ** (1.0 + alpha) - low ** (1.0 + alpha)),
     )
-    prob = xp.power(xx, alpha)
+    prob = xp.power(xx, 1.0 * alpha)
     prob *= norm
     prob *= (xx <= high) & (xx >= low)
     return prob
-- 
2.43.0


From 87c1599c788ac4857cd72b5db176ad8b9e11a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:59 +0000
Subject: [PATCH 37/37] fix: infinite log likelihoods are rejected with a
 variance limit in the numpyro model

---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 38379b4..cdfdc9c 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -98,7 +98,7 @@ def gwpopulation_likelihood_model(
             )
     if varmax < np.inf:
         ln_l = jnp.where(
-            jnp.isnan(ln_l) | (variance > varmax),
+            ~jnp.isfinite(ln_l) | (variance > varmax),
             jnp.nan_to_num(-jnp.inf),
             ln_l,
         )
-- 
2.43.0

