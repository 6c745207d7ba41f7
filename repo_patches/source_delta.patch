From 903992913f416a2eb2cae2c729a5bf210d423d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 01/49] fix: use torch.linalg.cholesky, torch.cholesky was
 removed from torch

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From 642ec9faac228332d8b8520beb7dd08114a2d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 02/49] fix: entropy used an undefined name and returned the
 negative entropy

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From bb14008789d7c74c54c711202a72b0fa9b218f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 03/49] fix: Gamma.__len__ read a parameter the Gamma does not
 have

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From 6fff88ef8c7e949f55203b059c741c1cabe45f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 04/49] fix: NormalDiagonalCovariance was not recovered from
 its natural parameters

---
 beer/dists/normaldiag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..99d2fdf 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
-- 
2.43.0


From b267ffb5241d2a7c8a792e5bc16a99ea2d0ced49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 05/49] fix: expected statistics of a set of diagonal Normals
 were stacked on the wrong axis

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 99d2fdf..d641e32 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From 88c6b398765fc013de2ebd6c8d18bc8dd0dfdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 06/49] fix: log-likelihood of a set of diagonal Normals
 subtracted the log-normalizers along the frames

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index d641e32..370fee1 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
-- 
2.43.0


From fe1d6a6f26c10f29092746d8525247b8bc5a39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 07/49] fix: NormalFullCovariance was not recovered from its
 natural parameters

---
 beer/dists/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..5cec72c 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -40,9 +40,9 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
         dim = int(.5 * (-1 + math.sqrt(1 + 4 * l)))
 
         np1 = natural_params[:, :dim]
-        np2 = natural_params[:, dim: dim * (dim + 1)]
+        np2 = natural_params[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
         cov = np2.inverse()
-        mean = cov * np1
+        mean = torch.matmul(cov, np1[:, :, None])
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
-- 
2.43.0


From 195cac9d536ab84d82433c03a50b611f2431e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 08/49] fix: isotropic Normal read the log-precision from the
 last mean coefficient

---
 beer/dists/isonormalgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..ad6f778 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, -1:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
-- 
2.43.0


From 3ca0b453cf4629e9ff29ac244792b70b9058bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 09/49] fix: isotropic Normal parameters could not be recovered
 from a set of pdf vectors

---
 beer/dists/isonormalgamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index ad6f778..28a7ca1 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -47,11 +47,11 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        precision = pdfvec[:, -3].view(-1, 1)
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean, precision
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 242241cab82178b9cb837cafcab176ba528998f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 10/49] fix: the sign of the Gamma sufficient statistics
 disagreed with its natural parameters

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
-- 
2.43.0


From bc15f64635e0902ea8aaa61ed94544c1d9bc7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 11/49] fix: Gamma expected log-likelihood used the parameters
 of the prior instead of the pdf's natural parameters

---
 beer/models/gamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..7c7563d 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,7 +67,7 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
@@ -77,7 +77,7 @@ class Gamma(Model):
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From 911fdef7ebf6b0d716719464c26eb05ee7c4558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 12/49] fix: unknown covariance types were never reported as
 such

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From b7d2a8ad85d81ce602d7487d72355c6a2f9bc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 13/49] fix: mean of a set of fixed-covariance Normals was
 sliced along the wrong dimension

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 370fee1..1e57bda 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -29,7 +29,7 @@ class NormalFixedDiagonalCovarianceLikelihood(ConjugateLikelihood):
         ], dim=-1)
 
     def parameters_from_pdfvector(self, pdfvec):
-        return pdfvec[:self.dim]
+        return pdfvec[..., :self.dim]
 
     def pdfvectors_from_rvectors(self, rvecs):
         return torch.cat([rvecs, rvecs**2], dim=-1)
-- 
2.43.0


From 72c7964f177e89fcd51f878d25466d04810b0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 14/49] fix: forced and Viterbi paths indexed the frames with
 the state identifiers

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..12e326e 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[range(len(path)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From 3eb669b615bc1480ab096a4d77072295ee815996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 15/49] fix: HMM posteriors scaled the statistics instead of
 the log-likelihoods

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 12e326e..73ee043 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From ac9fcbb78b680bc978636d8d1f5c31d065d64b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 16/49] fix: Mixture.posteriors used an attribute Mixture does
 not have

---
 beer/models/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..3133f77 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,8 +108,9 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf)[None]
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
-        per_component_exp_llh += log_weights
+        per_component_exp_llh = per_component_exp_llh + log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From cdaa7bc1e4837637dfaec2898aac37685b6a6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 17/49] fix: slices and negative indices of a MixtureSet
 selected the wrong components

---
 beer/models/mixtureset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..087598f 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -120,13 +120,15 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            if key < 0:
+                key += len(self)
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError(f'Unsupported index: {key}')
+            new_s = slice(start * ncpm, stop * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From 3cb6a849f65930d3709c73d1a29ff5daa0f49e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 18/49] fix: BigramPhoneLoop used the transposed bigram
 probabilities of a CategoricalSet

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..fc318e9 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -148,7 +148,8 @@ class BigramPhoneLoop(HMM):
                       'requires_grad': False}
         data = torch.eye(len(self.start_pdf), **tensorconf)
         stats = self.categoricalset.sufficient_statistics(data)
-        log_weights = self.categoricalset.expected_log_likelihood(stats)
+        # log_weights[i, j]: log-probability of phone j following phone i.
+        log_weights = self.categoricalset.expected_log_likelihood(stats).t()
         start_idxs = [value for value in self.start_pdf.values()]
         for i, end_idx in enumerate(self.end_pdf.values()):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
-- 
2.43.0


From 9ab4751986bd6d816030763d073571875839a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 19/49] fix: BigramPhoneLoop could not be trained with forced
 alignments

---
 beer/models/phoneloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index fc318e9..6908f93 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -188,5 +188,6 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(
+                self.categoricalset.accumulate_from_jointresps(fake_stats[None]))
         return retval
-- 
2.43.0


From 40eef241db79af56348a913e067ff3a1664d2b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 20/49] fix: transition posteriors of a previous utterance were
 accumulated after a forced alignment

---
 beer/models/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 73ee043..84546ff 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,7 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From 6cc9e415c0bc6bcd37340b83e3acbee416b4ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 21/49] fix: sticks of the HDP ignored the order of the sticks
 of their root

---
 beer/models/categoricalset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..05108c2 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -169,8 +169,11 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     tensorconf = {'dtype': mean.dtype, 'device': mean.device}
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
+    # The remaining mass follows the order of the sticks of the root.
+    residual = 1 - mean[root_sb_categorical.ordering].cumsum(dim=0)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    params[:, :, 1] = prior_strength \
+        * residual[root_sb_categorical.reverse_ordering]
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
@@ -250,8 +253,9 @@ class SBCategoricalSet(Model):
         params = torch.ones(self.n_components, 
                             len(self.root_sb_categorical.stickbreaking), 2,
                             **tensorconf)
+        residual = 1 - mean[self.ordering].cumsum(dim=0)
         params[:, :, 0] = self.concentration * mean
-        params[:, :, 1] = self.concentration * (1 - mean.cumsum(dim=0))
+        params[:, :, 1] = self.concentration * residual[self.reverse_ordering]
         params = params.reshape(-1, 2)
         self.stickbreaking.prior = Dirichlet.from_std_parameters(params)
 
-- 
2.43.0


From d19654f3bcc1161f7de28de59ec7592462b7bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 22/49] fix: log-density of a single full-covariance Normal
 raised an IndexError

---
 beer/dists/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 5cec72c..72ae9c1 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From db43a63663f74cb85123187ce06fbcf2198cbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 23/49] fix: a covariance given as a scalar was rejected

---
 beer/models/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index bdc2ac9..038d8f4 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -21,7 +21,7 @@ class UnknownCovarianceType(Exception): pass
 # Return a full covariance matrix whether the user has specified a
 # scalar, a diagonal or a full matrix.
 def _full_cov(cov, dim, tensorconf):
-    if len(cov.shape) == 1 and cov.shape[0] == 1:
+    if len(cov.shape) == 0 or (len(cov.shape) == 1 and cov.shape[0] == 1):
         return cov * torch.eye(dim, **tensorconf)
     elif len(cov.shape) == 1:
         return cov.diag()
-- 
2.43.0


From 325b6e404dbb179f3330180635225f26ee073017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 24/49] fix: natural form of the view of a subspace parameter
 was None

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From a7a5e856b32fa1176c28855b3543f324ec538f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 25/49] fix: part of a view of a subspace parameter was taken
 from the whole parameter

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..5f4fcd2 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -403,7 +403,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From 7c7a607bb9f629e0ed3e01e485d970144044cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 26/49] fix: terms of the VAE objective were broadcast against
 each other across frames

---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From ed617238f5778419b47811135fcd468920b2abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 27/49] fix: log-likelihood of the mean of a flow lacked the
 normalisation of the Normal

---
 beer/nnet/problayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..43e44f1 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,7 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.full_like(means[:, 0], -.5 * dim * math.log(2 * math.pi))
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From a1f0c3b62e8a6f267701a274496be063265c04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 28/49] fix: MergeTransform added the other transforms to its
 input in place

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From aac5523d433f460c9058ebbe5c49d70037d8b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 29/49] fix: auto-regressive networks of a single dimension
 could not be built

---
 beer/nnet/arnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..f090e4d 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,7 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)), k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From e5332611b5cdc84c1050c45c725789a0515ea23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 30/49] fix: compiling a graph lost the paths sharing a
 non-emitting state

---
 beer/graph.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..b0b81a4 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -154,33 +154,30 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        # A non-emitting state may be reached by several paths: all of
+        # them have to be followed (but not their cycles).
+        to_explore = [(arc, init_weight, {start_state})
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
-            pdf_id = self._states[arc.end].pdf_id
-            if pdf_id is not None:
-                yield arc.end, weight * arc.weight
-            else:
-                if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
+            if self._states[arc.end].pdf_id is not None:
+                yield arc.end, weight
+            elif arc.end not in visited:
+                to_explore += [(next_arc, weight, visited | {arc.end})
+                               for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, {start_state})
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
-            pdf_id = self._states[arc.start].pdf_id
-            if pdf_id is not None:
-                yield arc.start, weight * arc.weight
-            else:
-                if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
+            if self._states[arc.start].pdf_id is not None:
+                yield arc.start, weight
+            elif arc.start not in visited:
+                to_explore += [(next_arc, weight, visited | {arc.start})
+                               for next_arc in self.arcs(arc.start, incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 15e63439ce22467a941ec2f883a034849935de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 31/49] fix: replacing a state with a self-loop raised a
 KeyError

---
 beer/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beer/graph.py b/beer/graph.py
index b0b81a4..5c2ae9c 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -139,8 +139,13 @@ class Graph:
         new_arcs = []
         for arc in self.arcs(old_state_id):
             to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
+            # The self-loop starts the unit graph again.
+            end = arc.end if arc.end != old_state_id \
+                else new_states[graph.start_state]
+            new_arcs.append((new_states[graph.end_state], end, arc.weight))
         for arc in self.arcs(old_state_id, incoming=True):
+            if arc.start == old_state_id:
+                continue
             to_delete.append(arc)
             new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
 
-- 
2.43.0


From 766f09e3a72315cb39e5834c35754790ed0e2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 32/49] fix: replaced parameters were not replaced in the parts
 of a joint model set

---
 beer/models/basemodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..dbea569 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -1,7 +1,7 @@
 import abc
 from functools import reduce
 import torch
-from .parameters import ConjugateBayesianParameter
+from .parameters import BayesianParameter, ConjugateBayesianParameter
 
 __all__ = ['Model', 'DiscreteLatentModel']
 
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif not isinstance(child, BayesianParameter):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From 2d93892df93d5ac86a95625186a573333b7111c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:15 +0000
Subject: [PATCH 33/49] fix: the log-likelihood of a set of mixtures carried no
 gradient

---
 beer/models/mixtureset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 087598f..867009a 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -90,9 +90,9 @@ class MixtureSet(ModelSet):
         w_pc_exp_llhs = pc_exp_llhs + log_weights[None]
 
         # Responsibilities.
-        log_norm = logsumexp(w_pc_exp_llhs.detach(), dim=-1)
-        log_resps = w_pc_exp_llhs.detach() - log_norm[:, :, None]
-        resps = log_resps.exp()
+        log_norm = logsumexp(w_pc_exp_llhs, dim=-1)
+        log_resps = w_pc_exp_llhs - log_norm[:, :, None]
+        resps = log_resps.detach().exp()
         self.cache['resps'] = resps
 
         return log_norm
-- 
2.43.0


From 0d54e2d2149b04a20dc3a00f56a72fddfb5a2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 34/49] fix: create the triangular filters with a type numpy
 still has

np.float was removed from numpy: create_fbank, and so fbank, raised
AttributeError for every call.
---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From c20da6a9e5c074f83cc1488e9bebc1c7b991a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 35/49] fix: fbank places its filters for the sampling rate of
 the signal

The filters were always those of a 16 kHz signal, whatever srate was.
---
 beer/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 27524fc..299ad96 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 239bae10bedc12d41170947aa4fc34aa08b5acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 36/49] fix: accumulate failed on an utterance missing from the
 data set

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..d0c3bf2 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance "{uttid}" in {args.dataset}')
             continue
         aligraph = None
         if alis:
-- 
2.43.0


From bf364cd22a1c22832694a149b9ec6634592b5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 37/49] fix: decode failed on an utterance missing from the
 data set

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..4ecb108 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance "{uttname}" in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From e2f521bd69087ca54c3a017a4ab15818c1503778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 38/49] fix: decode could not read the alignment graphs

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 4ecb108..a14df5e 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From d2dbfdcb614efe136fab488222988c0dac00381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 39/49] fix: phone posteriors left out the last state of every
 phone

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From d2e43453c58e3ae956fd137dd07784fb807dbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 40/49] fix: extract placed the filters for 16 kHz at any
 sampling rate

---
 beer/cli/subcommands/features/extract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
-- 
2.43.0


From ebfb557319dd950e626fcfc7d321930bd64e74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 41/49] fix: train created an optimizer that does not exist

---
 beer/cli/subcommands/hmm/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..3792403 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,8 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(),
+                                      lrate=args.lrate)
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
-- 
2.43.0


From 88441f602d30282e3bd384956e98382bb8eed462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 42/49] fix: train with the default batch size updated after
 every utterance

---
 beer/cli/subcommands/hmm/train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index 3792403..bdcc83c 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -34,6 +34,7 @@ def main(args, logger):
     optim = beer.VBConjugateOptimizer(model.mean_field_factorization(),
                                       lrate=args.lrate)
 
+    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
         optim.init_step()
@@ -43,12 +44,12 @@ def main(args, logger):
                                               datasize=dataset.size)
 
             # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            if i % batch_size == 0:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(i // batch_size) + "/" + str(int(len(dataset) / batch_size)):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From 7aa53c7267bcebd0f8171f1810fbbe608a112638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:05 +0000
Subject: [PATCH 43/49] fix: vectors written by a subspace model stayed
 attached to its graph

A phone loop saved after shmm mksphoneloop could not be updated once loaded
(in-place change of a leaf that requires a gradient) and shmm train failed.
---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 5f4fcd2..5f164d3 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -453,7 +453,7 @@ def _update_params(params, pdfvecs):
 def _update_models(models, pdfvecs):
     for model, model_pdfvecs in zip(models, pdfvecs):
         params = _subspace_params(model)
-        _update_params(params, model_pdfvecs)
+        _update_params(params, model_pdfvecs.detach())
 
 # Approximate cross-entropy given samples and a model.
 def _xentropy(s_h, model, **kwargs):
-- 
2.43.0


From b50fc0949bac31f04ba9eb5ab79ceb8deec85783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:07 +0000
Subject: [PATCH 44/49] fix: subspace phone loops shared the counts of a unit
 among three states, whatever their number

---
 beer/cli/subcommands/hshmm/mksphoneloop.py | 4 ++--
 beer/cli/subcommands/shmm/mksphoneloop.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/cli/subcommands/hshmm/mksphoneloop.py b/beer/cli/subcommands/hshmm/mksphoneloop.py
index f05dfe9..74f2dea 100644
--- a/beer/cli/subcommands/hshmm/mksphoneloop.py
+++ b/beer/cli/subcommands/hshmm/mksphoneloop.py
@@ -32,8 +32,8 @@ def init_weights_stats(weights):
     counts = stats[:, -1].sum()
     ncomps = stats.shape[-1]
     new_stats = torch.zeros_like(stats)
-    new_stats[:] = counts / ( 3 * ncomps)
-    new_stats[:, -1] = counts / 3
+    new_stats[:] = counts / (len(stats) * ncomps)
+    new_stats[:, -1] = counts / len(stats)
     return new_stats
 
 
diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..543c43a 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -32,8 +32,8 @@ def init_weights_stats(weights):
     counts = stats[:, -1].sum()
     ncomps = stats.shape[-1]
     new_stats = torch.zeros_like(stats)
-    new_stats[:] = counts / ( 3 * ncomps)
-    new_stats[:, -1] = counts / 3
+    new_stats[:] = counts / (len(stats) * ncomps)
+    new_stats[:, -1] = counts / len(stats)
     return new_stats
 
 
-- 
2.43.0


From 3dedeb4adb479c288241c1362cb7c063b7ce4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:02 +0000
Subject: [PATCH 45/49] fix: shmm mksphoneloop erased the posteriors it was
 given for initialization

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index 543c43a..22c2f01 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,8 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
-                init_posts = pickle.load(f)[0]
+            with open(args.posteriors, 'rb') as f:
+                latent_posts = pickle.load(f)[0]
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 77a965eeb29f9b15982502e309b6d4fc81d3d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 46/49] fix: probabilities of a categorical with large logits
 are not NaN

exp(x) * exp(-lnorm) is inf * 0 as soon as a logit exceeds the range of
exp (88 in single precision); exponentiate the difference instead.
---
 beer/dists/dirichlet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 8350099..8c8e55a 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -33,9 +33,8 @@ class CategoricalLikelihood(ConjugateLikelihood):
             pdfvec = pdfvec.view(1, -1)
         retval = torch.zeros_like(pdfvec, requires_grad=False)
         lnorm = CategoricalLikelihood.log_norm(pdfvec[:, :-1])
-        remainder = (-lnorm).exp()
-        retval[:, :-1] = pdfvec[:, :-1].exp() * remainder[:, None]
-        retval[:, -1] = remainder
+        retval[:, :-1] = (pdfvec[:, :-1] - lnorm[:, None]).exp()
+        retval[:, -1] = (-lnorm).exp()
         if len(size) == 1:
             return retval.view(-1)
         return retval.view(-1, self.dim)
-- 
2.43.0


From a27a5adada7c1815b1a5a9d08b87de952f98baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 47/49] fix: logsumexp of a vector

view() without sizes is rejected by torch: the log-sum-exp of a tensor of
one dimension could not be computed.
---
 beer/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..062a86a 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -118,9 +118,7 @@ def logsumexp(tensor, dim=0):
          tmax,
          tmax + (tensor - tmax).exp_().sum(dim=dim, keepdim=True).log_()
          )
-    new_size = list(tensor.size())
-    del new_size[dim]
-    return retval.view(*new_size)
+    return retval.squeeze(dim)
 
 
 def symmetrize_matrix(mat):
-- 
2.43.0


From cca1c13e06ef5d0ad3f7d0759cc8584f5dd64e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:29 +0000
Subject: [PATCH 48/49] fix: MixtureSet.create: weights of the dtype and device
 of the components

---
 beer/models/mixtureset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 867009a..c126445 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -46,7 +46,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype,
+                             device=device) / ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
-- 
2.43.0


From 085f2e54c181767902f08111b1f8b94966ca317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:13 +0000
Subject: [PATCH 49/49] fix: hmm accumulate fails when none of the listed
 utterances is in the data set

---
 beer/cli/subcommands/hmm/accumulate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index d0c3bf2..557b204 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,8 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    norm = max(1, count) * dataset.size
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / norm :.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0

