From ffeee8f81310573bbad73657f0bbd17c1afaf1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 01/68] fix: refresh out-of-date statistics before returning
 them

After filter/reweight/addDerived etc. getMargeStats and getLikeStats returned
values for the old samples, and getCovMat, PCA and
getCorrelatedVariable2DPlots failed on the reset caches.
---
 python/getdist/mcsamples.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..c03c713 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -524,6 +524,8 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -578,6 +580,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparamNonDerived = self.paramNames.numNonDerived()
         return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
                              paramNames=self.paramNames.list()[:nparamNonDerived])
@@ -633,6 +637,8 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -816,6 +822,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -845,6 +853,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
@@ -2131,6 +2141,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2203,6 +2215,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
@@ -2289,11 +2303,13 @@ class MCSamples(Chains):
         :param nparam: maximum number of pairs to get
         :return: list of [x,y] pair names
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparam = nparam or self.paramNames.numNonDerived()
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From c2d7b49f93a6da46798a8663efb7bbd66db2d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 02/68] fix: keep chain offsets and rows consistent when
 combined chains are filtered, thinned, cut or split

---
 python/getdist/chains.py | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..d55145e 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1015,16 +1015,19 @@ class WeightedSamples:
         self.changeSamples(np.delete(self.samples, fixed, 1))
         return fixed, values
 
+    def _numBurnRows(self, remove):
+        if remove >= 1:
+            return int(remove)
+        else:
+            return int(round(self.numrows * remove))
+
     def removeBurn(self, remove=0.3):
         """
         removes burn in from the start of the samples
 
         :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
         """
-        if remove >= 1:
-            ix = int(remove)
-        else:
-            ix = int(round(self.numrows * remove))
+        ix = self._numBurnRows(remove)
         if self.weights is not None:
             self.weights = self.weights[ix:]
         if self.loglikes is not None:
@@ -1140,10 +1143,15 @@ class Chains(WeightedSamples):
         if self.chains is None:
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
-                lens = [0]
-                for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
+                rows = np.arange(self.numrows)[where]
+                if np.any(np.diff(rows) < 0):
+                    # rows reordered, so no longer made of consecutive chains
+                    self.chain_offsets = None
+                else:
+                    lens = [0]
+                    for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
+                        lens.append(np.count_nonzero((rows >= off1) & (rows < off2)))
+                    self.chain_offsets = np.cumsum(np.array(lens))
             super().filter(where)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
@@ -1166,6 +1174,28 @@ class Chains(WeightedSamples):
             self.makeSingle()
         self.needs_update = True
 
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        thin_ix = self.thin_indices(factor)
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.searchsorted(thin_ix, self.chain_offsets)
+        self.setSamples(self.samples[thin_ix, :], loglikes=None if self.loglikes is None else self.loglikes[thin_ix],
+                        min_weight_ratio=-1)
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.maximum(self.chain_offsets - self._numBurnRows(remove), 0)
+        super().removeBurn(remove)
+
     def getParamNames(self):
         """
         Get :class:`~.paramnames.ParamNames` object with names for the parameters
@@ -1334,6 +1364,7 @@ class Chains(WeightedSamples):
         :return: True if loaded successfully, False if none loaded
         """
         self.chains = []
+        self.chain_offsets = None
         self.samples = None
         self.weights = None
         self.loglikes = None
@@ -1468,7 +1499,7 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From eb80e8203e17ab6a0c1d9a5dbf94a8ba185cf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 03/68] fix: write the selected rows, one per line, in thinned
 output

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c03c713..746ef67 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -556,21 +556,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From ccc9595670f415177cabd3659c572c738f100099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 04/68] fix: do not leave a trailing dot when saving to a root
 ending in .txt

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d55145e..b381ddb 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1050,7 +1050,7 @@ class WeightedSamples:
         if make_dirs and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
-- 
2.43.0


From 659dafedde626c9314f9a4db4018fce951c589e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:27 +0000
Subject: [PATCH 05/68] fix: do not modify the caller's weight and likelihood
 arrays when reweighting or cooling

---
 python/getdist/chains.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index b381ddb..eef94ac 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -961,9 +961,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = np.asarray(self.weights, dtype=np.float64) * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -974,8 +973,8 @@ class WeightedSamples:
         """
         MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        self.weights = np.asarray(self.weights, dtype=np.float64) * \
+            np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From d964e1d1ac3619588cbf619157f7aa8d61479cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 06/68] fix: apply only the settings of the present call to
 samples loaded from the cache

---
 python/getdist/mcsamples.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 746ef67..b5d46d0 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -39,6 +39,11 @@ class BandwidthError(MCSamplesError):
     """
 
 
+def _limit_settings(ini):
+    # parameter limit settings, which change the ranges saved with the samples
+    return {key: value for key, value in ini.params.items() if key == 'all_limits' or key.startswith('limits[')}
+
+
 def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
                   jobItem=None, no_cache=False, settings: Optional[Mapping[str, Any]] = None) -> 'MCSamples':
     """
@@ -88,10 +93,12 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
             if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
+                    and samples.min_weight_ratio == cache.min_weight_ratio \
+                    and _limit_settings(samples.ini) == _limit_settings(cache.ini):
+                changed = samples.ini.params != cache.ini.params or len(samples.contours) != len(cache.contours) or \
                           np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
+                # samples.ini has the settings of this call only, not those used when the cache was saved
+                cache.updateSettings(ini=samples.ini, doUpdate=changed)
                 return cache
         except Exception:
             pass
-- 
2.43.0


From aba9e0381348b57803b418605d75c6e5b3c9d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 07/68] fix: do not add ignore_rows to the caller's settings
 dictionary

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b5d46d0..78b5d7a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -218,9 +218,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From d428722a080a2c9dce5d1c55fbed6b613753547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:23 +0000
Subject: [PATCH 08/68] fix: saving a .ini file without a name writes the file
 that was read, not the last file it included

---
 python/getdist/inifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..f35d467 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -70,7 +70,6 @@ class IniFile:
         try:
             fileincludes = []
             filedefaults = []
-            self.original_filename = filename
             comments = []
             with open(filename, encoding='utf-8-sig') as textFileHandle:
                 # Remove blank lines and comment lines from the python list of lists.
@@ -118,6 +117,7 @@ class IniFile:
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
 
+            self.original_filename = filename
             return self.params
         except:
             print('Error in ' + filename)
-- 
2.43.0


From 0c7bbe601f3aa56432e6ad1cd1f109d90bfdb796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:46 +0000
Subject: [PATCH 09/68] fix: read F entries of boolean lists as False

---
 python/getdist/inifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index f35d467..4ab8f31 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -262,7 +262,7 @@ class IniFile:
 
         if not default:
             default = []
-        return self.split(name, default, tp=bool)
+        return [IniFile({name: x}).bool(name) for x in self.split(name, default)]
 
     def string(self, name, default=None, allowEmpty=True):
         """
-- 
2.43.0


From dfd27f15964b8dbcdb9db37e9690dbdcf2be9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 10/68] fix: keep a $ that does not start a placeholder when
 expanding environment variables

---
 python/getdist/inifile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 4ab8f31..4d2c3a7 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -51,16 +51,18 @@ class IniFile:
         while index < pathlen:
             c = s[index]
             if c == '$':
-                if s[index + 1] == '$':
+                if s[index + 1:index + 2] == '$':
                     res = res + c
                     index += 1
-                elif s[index + 1] == '(':
+                elif s[index + 1:index + 2] == '(':
                     s = s[index + 2:]
                     pathlen = len(s)
                     index = s.index(')')
                     var = s[:index]
                     if var in os.environ:
                         res += os.environ[var]
+                else:
+                    res = res + c
             else:
                 res = res + c
             index += 1
-- 
2.43.0


From 9a8f65b484c4e35530be61803c9faedfd72f3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:29 +0000
Subject: [PATCH 11/68] fix: getBounds, getUpper and getLower include a
 parameter added since the last update

---
 python/getdist/mcsamples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78b5d7a..317af01 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2070,6 +2070,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2086,6 +2088,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2098,6 +2102,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
-- 
2.43.0


From 1aef1b11029d55ea782a4f9ad846127a6cdcf928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:29 +0000
Subject: [PATCH 12/68] fix: getParamBestFitDict(best_sample=True) respects
 want_derived and want_fixed

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 317af01..450943a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2369,7 +2369,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From 041b5549343f3dd596c33868d2fc889fb4f236a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:29 +0000
Subject: [PATCH 13/68] fix: combine samples that have parameter names
 containing dots

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 450943a..64d553a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2414,9 +2414,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From 30a9dc7b94cc3da22338dfd63210890c99172cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:31 +0000
Subject: [PATCH 14/68] fix: write parameter names next to samples saved to a
 root ending in .txt

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index eef94ac..9680634 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1542,6 +1542,8 @@ class Chains(WeightedSamples):
                             of multiple chains
         :param make_dirs: True if this should (recursively) create the directory if it doesn't exist
         """
+        if root.endswith('.txt'):
+            root = root[:-4]
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
             self.saveTextMetadata(root)
-- 
2.43.0


From 90666570504a68c170024b808f1bc760fec08c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:31 +0000
Subject: [PATCH 15/68] fix: ParamInfo.nameEquals compares with the given name

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..7d19f25 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return self.name == name.name
         else:
-            return name == name
+            return self.name == name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From 551c6dabeb38fbb51be27fef7d1833ec22c98813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:58 +0000
Subject: [PATCH 16/68] fix: do not delete parameters that are constant in the
 first chain only

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9680634..0a56a50 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1524,8 +1524,9 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            # only parameters that have the same value in all of the chains are fixed
+            fixed, values = WeightedSamples(samples=np.vstack([c.samples for c in self.chains])).deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From a6c95b06baa5201a1c5f7a83714a96b4389acca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:48 +0000
Subject: [PATCH 17/68] fix: variance of a list of parameters respects the row
 selection

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0a56a50..080a02a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -677,7 +677,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From 2f7a6dc2b7776a643b1f2407f3349d9ca2d87d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 18/68] fix: recognise burn in already removed from Cobaya
 post-processed chains

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..477be5a 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
     return info.get(_post, {}).get("skip", 0)
-- 
2.43.0


From d192acb7fb81fb21bfcb2f8b39aeab2775dc3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 19/68] fix: do not remove burn in from nested samples when
 only the default settings ask for it

---
 python/getdist/mcsamples.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 64d553a..c1e53f5 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -267,6 +267,10 @@ class MCSamples(Chains):
                 if 'sampler' not in kwargs:
                     self.setSampler(cobaya_interface.get_sampler_type(self.paramNames.info_dict))
                 self.properties.params['sampler'] = self.sampler
+        if self.sampler == "nested":
+            # there is no burn in, also if the default settings remove some
+            self.ignore_frac = 0.
+            self.ignore_lines = 0
         if self.ignore_frac or self.ignore_rows:
             self.properties.params['burn_removed'] = True
 
-- 
2.43.0


From ba03837b0733a9ca56708c9940a981dd022f8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 20/68] fix: do not remove burn in again when copying grids of
 chains with burn in already removed

---
 python/copyGridFiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..70c8d82 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -115,13 +115,14 @@ for jobItem in Opts.filteredBatchItems():
         outdir = jobItem.relativePath
         if not args.zip: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
+            hasBurn = not jobItem.isImportanceJob and not jobItem.isBurnRemoved()
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
                 f = jobItem.name + '_%d.txt' % i
                 chainfiles += 1
-                doCopy(jobItem.chainPath, outdir, f, not jobItem.isImportanceJob)
+                doCopy(jobItem.chainPath, outdir, f, hasBurn)
                 i += 1
-            if not jobItem.isImportanceJob and args.remove_burn_fraction:
+            if hasBurn and args.remove_burn_fraction:
                 props = jobItem.propertiesIni()
                 props.params['burn_removed'] = True
                 writeIni(jobItem.name + '.properties.ini', props)
-- 
2.43.0


From af1400f1218c4e09cb3497e6d3b462851cbe17e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:19 +0000
Subject: [PATCH 21/68] fix: set the size of a merged covariance matrix, so
 that its correlation is normalised

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..b1a3560 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -80,6 +80,7 @@ class CovMat:
         map2 = dict(list(zip(params2, list(range(0, l2)))))
         covmap = dict(list(zip(list(range(0, length)), C.paramNames)))
 
+        C.size = length
         C.matrix = np.zeros((length, length))
         for i in range(0, length):
             for j in range(0, length):
-- 
2.43.0


From 05eff0546d6d10bf34b28720bbeedb016e60d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:19 +0000
Subject: [PATCH 22/68] fix: load the covariance of a single parameter as a
 matrix

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index b1a3560..7edb536 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From 711c854fd6ef896829fed1b5d1f81101c1aaf09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:19 +0000
Subject: [PATCH 23/68] fix: do not modify the array a covariance matrix was
 made from when rescaling

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 7edb536..2b2ee29 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -57,6 +57,7 @@ class CovMat:
         """
         if name in self.paramNames:
             i = self.paramNames.index(name)
+            self.matrix = self.matrix.copy()
             self.matrix[:, i] = self.matrix[:, i] * scale
             self.matrix[i, :] = self.matrix[i, :] * scale
         else:
-- 
2.43.0


From e80f27c693af04778d61367e18fa39dfba95b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 24/68] fix: replace the job index in one step, so that it is
 not lost if stopped part way

---
 python/paramgrid/jobqueue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..644e91f 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -174,8 +173,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    os.replace(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From 1bba3cd24d791373da5e40f34f2690d38a39605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 25/68] fix: deleting an old job from the index keeps the
 entries of a newer job with the same names

---
 python/paramgrid/jobqueue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 644e91f..fe881c6 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -150,9 +150,9 @@ class jobIndex(object):
             j = self.jobSettings.get(jobId)
             if j is not None:
                 for rootname in j.names:
-                    del (self.rootNames[rootname])
+                    if self.rootNames.get(rootname) == jobId: del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
+                if self.jobNames.get(j.jobName) == jobId: del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
 
 
-- 
2.43.0


From 58b47fb6452b0b667490c4a4e2d3daaaa9a6157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 26/68] fix: read job ids and queue listings from the queue
 commands as text

---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index fe881c6..cfd3073 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -71,7 +71,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = subprocess.check_output('qstat -help', shell=True, universal_newlines=True).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -305,7 +305,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -328,11 +329,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From 72c4b7e5ce3393acda309206582bc03e0989611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 27/68] fix: deleting only running or only queued jobs leaves
 the others in the job index

---
 python/paramgrid/jobqueue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index cfd3073..a5e4ea3 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -240,6 +240,8 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
+                elif running or queued:
+                    continue  # not one of the jobs asked for
                 index.delId(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
-- 
2.43.0


From f8f5146472eab8e83a5c680233267b751a27813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 28/68] fix: look up the named external environment variable
 for job settings

---
 python/paramgrid/jobqueue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index a5e4ea3..e931d14 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -53,7 +53,7 @@ def getDefaulted(key_name, default=None, tp=str, template=None, ext_env=None, **
     if val is None and template is not None:
         val = extractValue(template, 'DEFAULT_' + key_name)
     if val is None: val = os.environ.get('COSMOMC_' + key_name, None)
-    if val is None and ext_env: val = os.environ.get('ext_env', None)
+    if val is None and ext_env: val = os.environ.get(ext_env, None)
     if val is None: val = default
     if val is None: return None
     return tp(val)
-- 
2.43.0


From b64a022371c7d2dc116cd0a021d5a4745c16f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 29/68] fix: deleting a range of job ids does not also delete
 all other jobs of the batch

---
 python/deleteJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..e83d3fd 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -20,7 +20,7 @@ Opts.parser.add_argument('--confirm', action='store_true')
 if batch:
     if args.delete_id_range is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
+    elif args.delete_id_min is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
     elif args.delete_ids is not None:
         jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
-- 
2.43.0


From 04e0ec39adc96c39ce1f96b9b2bb7fc59d8c34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 30/68] fix: delete jobs given by number from the job index

---
 python/deleteJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index e83d3fd..8205d9a 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -23,7 +23,7 @@ if batch:
     elif args.delete_id_min is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, [str(jobId) for jobId in args.delete_ids], confirm=args.confirm)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-- 
2.43.0


From abbf2ecc56da7064f6e83f152251a69b90859a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 31/68] fix: deleteJobs obeys --queued and --running

---
 python/deleteJobs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 8205d9a..ce357d8 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -19,15 +19,19 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 if batch:
     if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm,
+                            running=args.running, queued=args.queued)
     elif args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm,
+                            running=args.running, queued=args.queued)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, [str(jobId) for jobId in args.delete_ids], confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, [str(jobId) for jobId in args.delete_ids], confirm=args.confirm,
+                            running=args.running, queued=args.queued)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm,
+                            running=args.running, queued=args.queued)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
-- 
2.43.0


From cc3c29d511fb65ab66c03ff74e3edf47be057c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 32/68] fix: deleteJobs without a batch directory cancels
 nothing unless confirmed

---
 python/deleteJobs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index ce357d8..ac54ffe 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -41,4 +41,8 @@ else:
     elif args.delete_ids is not None: ids += args.delete_ids
     else: print('Must give --delete_id_range or --delete_ids if no batch directory')
     for jobId in ids:
-        subprocess.check_output('qdel ' + str(jobId), shell=True)
+        if args.confirm:
+            subprocess.check_output('qdel ' + str(jobId), shell=True)
+        else:
+            print('...', jobId)
+    if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
-- 
2.43.0


From d13a57e4482fd1aaeb251e526db927d73d6a6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 33/68] fix: a job group made with its data sets keeps them,
 its name, parameters and importance runs

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 2ab1efbd69f8c1fd5565e838953a0f801ce0c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 34/68] fix: the names of a given number of chains start at
 chain 1

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..88da410 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -336,7 +336,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i) for i in range(1, num_chains + 1)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 61307097690e9edadf636dd0bb7d7cf52f93c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 35/68] fix: making or extending a data set does not modify the
 caller's lists and settings

---
 python/paramgrid/batchjob.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 88da410..4ded830 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -93,10 +93,10 @@ class dataSet(object):
         else:
             params = self.standardizeParams(params)
         if covmat is not None: self.covmat = covmat
-        self.names = names
+        self.names = list(names)
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
-        self.dist_settings = dist_settings
+        self.dist_settings = dict(dist_settings)
 
     def add(self, name, params=None, overrideExisting=True, dist_settings=None):
         if params is None: params = [name]
@@ -133,9 +133,8 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
-        for i in range(len(params)):
-            if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
-        return params
+        return [param + '.ini' if isinstance(param, six.string_types) and not '.ini' in param else param
+                for param in params]
 
     def hasName(self, name):
         if isinstance(name, six.string_types):
-- 
2.43.0


From 1487cd5a4f4801acb9a559e8c2bf846dc7a61914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 36/68] fix: store the --param_list option where it is used, so
 that plotting grids does not fail

---
 python/paramgrid/batchjob_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..5c20abc 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -69,7 +69,7 @@ class batchArgs(object):
                                      help='directory/ies containing getdist output plot_data')
             self.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
                                      help=".paramnames file for custom labels for parameters")
-            self.parser.add_argument('--param_list', default=None,
+            self.parser.add_argument('--param_list', dest='paramList', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
             self.parser.add_argument('--nx', default=None, help='number of plots per row')
-- 
2.43.0


From f772d3fa1fd33dec522068304d4a1047c5c0fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 37/68] fix: --not_queued recognises queued importance
 minimization jobs

---
 python/runbatch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..bac41cb 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,8 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
-    return not name in queued
+    return not name + variant in queued
 
 
 variant = ''
-- 
2.43.0


From 1e16a752fee2fc87019288dd29c26e4230452db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 38/68] fix: name jobs of many runs in Python 3

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index bac41cb..429bd7e 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -73,7 +73,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From d98f749e9d08924abe66eb38f4af51c407420230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 39/68] fix: write the renamed parameters to the .minimum file

---
 python/renameParam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..fb7e270 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -87,7 +87,8 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm:
+                    with open(bestfit, 'w') as f: f.write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From 747005f9ed6ed93dfce3b5f7e67aec6d7a9db760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:12 +0000
Subject: [PATCH 40/68] fix: copyGridFiles makes no files or directories in a
 dry run

---
 python/copyGridFiles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 70c8d82..7a77ef4 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -39,7 +39,10 @@ if args.max_age_days:
 
 sizeMB = 0
 
-if args.zip:
+if args.dryrun:
+    zipper = None
+    target_dir = os.path.abspath(args.target_dir) + os.sep
+elif args.zip:
     zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
     target_dir = None
 else:
@@ -113,7 +116,7 @@ for jobItem in Opts.filteredBatchItems():
         distfiles = 0
         doneProperties = False
         outdir = jobItem.relativePath
-        if not args.zip: batchjob.makePath(target_dir + outdir)
+        if not args.dryrun and not args.zip: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
             hasBurn = not jobItem.isImportanceJob and not jobItem.isBurnRemoved()
             i = 1
@@ -137,7 +140,7 @@ for jobItem in Opts.filteredBatchItems():
                     doCopy(jobItem.chainPath, outdir, f)
         if args.dist and os.path.exists(jobItem.distPath):
             outdir += 'dist' + os.sep
-            if not args.zip: batchjob.makePath(target_dir + outdir)
+            if not args.dryrun and not args.zip: batchjob.makePath(target_dir + outdir)
             for f in os.listdir(jobItem.distPath):
                 if fileMatches(f, jobItem.name) and (not args.max_age_days or
                                                      datetime.fromtimestamp(
-- 
2.43.0


From 24cc98a69ac22e4281f22460343add4e463d74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:58 +0000
Subject: [PATCH 41/68] fix: listGrid obeys --notexist and --converge

---
 python/listGrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..c825ed7 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,8 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists(): continue
+        if args.converge != 0 and not jobItem.hasConvergeBetterThan(args.converge): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From 525dd4fa1e165c7207a2d87839df34ea11d50887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:11 +0000
Subject: [PATCH 42/68] fix: makePlots obeys --converge

---
 python/makePlots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/makePlots.py b/python/makePlots.py
index ca5688b..e974453 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -66,6 +66,8 @@ if args.compare_replacing is not None:
 items = Opts.sortedParamtagDict()
 
 for paramtag, parambatch in items:
+    parambatch = [jobItem for jobItem in parambatch if
+                  args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge)]
     g.newPlot()
     if args.compare_replacing is not None:
         print('comparing changes in data for: ' + paramtag)
-- 
2.43.0


From 466bdf8580bd5098fce0141f43292bb9f0189471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:50 +0000
Subject: [PATCH 43/68] fix: importance runs keep the base model of their
 parent in their tags

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 4ded830..86f8e8a 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -257,7 +257,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From b299e890eda89b1bf433a5ae6938e56edd6a8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 44/68] fix: plots do not change the line_args or contour_args
 list they are given

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..8c1cf33 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1365,6 +1365,8 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
+        else:
+            line_args = list(line_args)  # do not change the caller's list
         if len(line_args) < nroots:
             line_args += [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
-- 
2.43.0


From 40ac2a9bcbc0fe0848f65b17f5b4621378757373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 45/68] fix: deleteJobs does not extend the list of job ids it
 is given

---
 python/paramgrid/jobqueue.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index e931d14..dd63cd7 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -207,6 +207,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
         raise Exception('No existing job index found')
     if jobIds is None: jobIds = []
     if isinstance(jobIds, six.string_types): jobIds = [jobIds]
+    jobIds = list(jobIds)  # do not change the caller's list
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
         for name in rootNames:
-- 
2.43.0


From 0d356148c7394807571ee196aeb228225a142c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 46/68] fix: reading the range of a cobaya parameter does not
 change the info of the caller

---
 python/getdist/cobaya_interface.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 477be5a..696fcf4 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -142,7 +142,7 @@ def get_info_params(info):
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
     for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
+        pinfo_old = deepcopy(info_params_full.get(param, {}))
         pinfo_old.update(pinfo)
         info_params_full[param] = pinfo_old
     likes += list(add.get(_likelihood, []))
@@ -163,21 +163,23 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif isinstance(prior, Mapping):
+            prior = dict(prior)
+        else:
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
+        info_lims = dict((tag, prior.get(tag))
                          for tag in ["min", "max", "loc", "scale"])
         if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
+            lims = [prior.get("min"), prior.get("max")]
         elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+            dist = prior.pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **prior)
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From c06143f9d1bc43d1435cdad40b9a3c7af307e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 47/68] fix: the plotter updates its own copy of the analysis
 settings object

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 8c1cf33..35b1c38 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -452,7 +452,7 @@ class MCSampleAnalysis(_BaseObject):
         """
         self.analysis_settings = {}
         if isinstance(settings, IniFile):
-            ini = settings
+            ini = copy.deepcopy(settings)
         elif isinstance(settings, Mapping):
             ini = IniFile(getdist.default_getdist_settings)
             ini.params.update(settings)
-- 
2.43.0


From e01f73bdd579a50409be62c58faee6f1f1e4ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 48/68] fix: drawing a line does not change the plot_args
 setting

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 35b1c38..8ebd0ae 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -783,6 +783,7 @@ class GetDistPlotter(_BaseObject):
         else:
             raise GetDistPlotError(
                 'plot_args must be list of dictionaries or dictionary: %s' % self.settings.plot_args)
+        args = dict(args)
         args.update(kwargs)
         return args
 
-- 
2.43.0


From ae3e70187f7c1300a76477f637493e7f0930fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 49/68] fix: the plotter drops stored densities when the
 samples have been changed or reloaded

---
 python/getdist/plots.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 8ebd0ae..81a6a43 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -467,6 +467,7 @@ class MCSampleAnalysis(_BaseObject):
         self.densities_1D = dict()
         self.densities_2D = dict()
         self.single_samples = dict()
+        self.calculated_for = dict()
         self.chain_settings_have_priority = chain_settings_have_priority
 
     def samples_for_root(self, root: Union[str, MCSamples], file_root: Optional[str] = None,
@@ -562,6 +563,19 @@ class MCSampleAnalysis(_BaseObject):
         self.single_samples.pop(root, None)
         self.densities_1D.pop(root, None)
         self.densities_2D.pop(root, None)
+        self.calculated_for.pop(root, None)
+
+    def _current_samples(self, root):
+        # samples for root, dropping stored results calculated before the samples were last changed or reloaded
+        samples = self.samples_for_root(root)
+        if samples.needs_update:
+            samples.updateBaseStatistics()
+        if self.calculated_for.get(root) is not samples.density1D:
+            self.single_samples.pop(root, None)
+            self.densities_1D.pop(root, None)
+            self.densities_2D.pop(root, None)
+            self.calculated_for[root] = samples.density1D
+        return samples
 
     def get_density(self, root, param, likes=False):
         """
@@ -572,6 +586,7 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihood in density.likes
         :return:  :class:`~.densities.Density1D` instance with 1D marginalized density
         """
+        samples = self._current_samples(root)
         rootdata = self.densities_1D.get(root)
         if rootdata is None:
             rootdata = {}
@@ -580,7 +595,6 @@ class MCSampleAnalysis(_BaseObject):
             name = param.name
         else:  #
             name = param
-        samples = self.samples_for_root(root)
         key = (name, likes)
         rootdata.pop((name, not likes), None)
         density = rootdata.get(key)
@@ -602,6 +616,7 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihoods
         :return: :class:`~.densities.Density2D` instance with marginalized density
         """
+        samples = self._current_samples(root)
         rootdata = self.densities_2D.get(root)
         if not rootdata:
             rootdata = {}
@@ -609,7 +624,6 @@ class MCSampleAnalysis(_BaseObject):
         key = (param1.name, param2.name, likes, conts)
         density = rootdata.get(key)
         if not density:
-            samples = self.samples_for_root(root)
             density = samples.get2DDensityGridData(param1.name, param2.name, num_plot_contours=conts, meanlikes=likes)
             if density is None:
                 return None
@@ -623,8 +637,9 @@ class MCSampleAnalysis(_BaseObject):
         :param root: The root name to use.
         :return: array of unit weight samples
         """
+        samples = self._current_samples(root)
         if root not in self.single_samples:
-            self.single_samples[root] = self.samples_for_root(root).makeSingleSamples()
+            self.single_samples[root] = samples.makeSingleSamples()
         return self.single_samples[root]
 
     def params_for_root(self, root, label_params=None):
-- 
2.43.0


From 914d348c2b45af25dfd4570c855d51d249865290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 50/68] fix: plotting a normalized density does not rescale the
 density stored with the samples

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 81a6a43..47b07bb 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -989,7 +989,7 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
-            density.normalize()
+            density = copy.copy(density).normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
         self.lines_added[plotno] = kwargs
-- 
2.43.0


From d6be1e64cc6cd2b654d79df4feb74b59145b81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:49 +0000
Subject: [PATCH 51/68] fix: the setting use_effective_samples_2D takes effect

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c1e53f5..25163e1 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -386,6 +386,7 @@ class MCSamples(Chains):
         if self.force_twotail:
             logging.warning('Computing two tail limits')
         ini.setAttr('max_corr_2D', self)
+        ini.setAttr('use_effective_samples_2D', self)
 
         if ini.hasKey('contours'):
             ini.setAttr('contours', self)
@@ -1209,7 +1210,7 @@ class MCSamples(Chains):
             return h
 
     def getAutoBandwidth2D(self, bins, parx, pary, paramx, paramy, corr, rangex, rangey, base_fine_bins_2D,
-                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=False):
+                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=None):
         """
         Get optimized kernel density bandwidth matrix in parameter units, using Improved Sheather Jones method in
         sheared parameters. The shearing is determined using the covariance, so you know the distribution is
-- 
2.43.0


From 9f36878922e197cd681a969a90898d9e1d3bc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:49 +0000
Subject: [PATCH 52/68] fix: line width of mean likelihoods uses the setting
 which exists

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 47b07bb..c2abe8c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -997,7 +997,7 @@ class GetDistPlotter(_BaseObject):
         if kwargs.get('dashes'):
             l.set_dashes(kwargs['dashes'])
         if self.settings.plot_meanlikes:
-            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_likes)
+            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_meanlikes)
             ax.plot(density.x, density.likes, **kwargs)
         if title_limit:
             if isinstance(root, MixtureND):
-- 
2.43.0


From 34c9ed4b7ae3aa17c3692eabe2109c45467b8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:49 +0000
Subject: [PATCH 53/68] fix: settings of a chain folder are only used for
 chains found in that folder

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c2abe8c..57de9c0 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -513,10 +513,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From 6a48cdb8fed1f2155cfb9c03a8e1efde912c1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 54/68] fix: getLimits returns the limits of every level it is
 given

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..b106de6 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.ndim(p) == 0:
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From 16dfae691a3ed789a2bfafa24dd1ae15831e70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 55/68] fix: contour levels are densities, not the half weights
 of grid edges

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index b106de6..31ce584 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From a1bfa4f966fc84f6244335b9b0887e079ccd91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 56/68] fix: range_ND_contour bounds the upper end of a range
 as it does the lower end

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 25163e1..b401f30 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1359,7 +1359,7 @@ class MCSamples(Chains):
             if self.range_ND_contour >= par.ND_limit_bot.size:
                 raise SettingError("range_ND_contour should be -1 (off), or 0, 1 for first or second contour level")
             par.range_min = min(max(par.range_min - par.err, par.ND_limit_bot[self.range_ND_contour]), par.range_min)
-            par.range_max = max(max(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
+            par.range_max = max(min(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
 
         smooth_1D = par.sigma_range * 0.4
 
-- 
2.43.0


From b48c9814ab95e48ea7324c7121f4c08718aa0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 57/68] fix: Density2D.Prob returns the density

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 31ce584..088fd4f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -287,7 +287,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From ec75689319943f3787fa53813a60fc6a51034923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 58/68] fix: integral of an N-dimensional density includes the
 cell volume

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 088fd4f..d012955 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -330,7 +330,7 @@ class DensityND(GridDensity):
 
     def integrate(self, P):
 
-        ndim = len(P)
+        ndim = P.ndim
 
         multinorm = np.zeros(ndim + 1)
 
@@ -357,7 +357,7 @@ class DensityND(GridDensity):
 
             norm += multinorm[i] / 2 ** i
 
-        return norm
+        return norm * self.spacing
 
     def norm_integral(self):
         return self.integrate(self.P)
-- 
2.43.0


From 01c4f489a85262a1ca3e40ed3e14f422089f7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 59/68] fix: convolveGaussianDCT works without a cache

---
 python/getdist/convolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..6c8475e 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
-- 
2.43.0


From d67265f6ebf19e715f291dbe77a18b518b0b65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 60/68] fix: covariance of a mixture uses the whole mean vector

---
 python/getdist/gaussian_mixtures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..08ac518 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,9 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            delta = mean - self.total_mean
+            self.total_cov += weight * (cov + np.outer(delta, delta))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From 5fb6952025e71be7aedccbbe1d87925794e3793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 61/68] fix: density1D passes on no_limit_marge

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 08ac518..174a34e 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -185,7 +185,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge=no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From 7521938e8b935a07de6b833c3d2905f84df9ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 62/68] fix: weights of a conditional mixture

---
 python/getdist/gaussian_mixtures.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 174a34e..41e7071 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -283,19 +283,13 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            logw = np.linalg.inv(fixed_cov).dot(deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov))
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
 
-        new_weights = np.exp(-(np.asarray(new_weights) - min(new_weights)) / 2)
+        new_weights = self.weights * np.exp(-(np.asarray(new_weights) - min(new_weights)) / 2)
         if self.names is not None:
             names = [self.names[i] for i in keep_params]
         else:
-- 
2.43.0


From 2e1aa7ad62f5c2d7127d864babac253e199687df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 63/68] fix: getLower of a mixture returns the lower limit

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 41e7071..ba3cced 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -314,7 +314,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From 08436bf04ef0333289198bf8e1b23e1987ee8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 64/68] fix: a margestats file without a label keeps an empty
 label

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..13adcac 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -690,7 +690,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 0b6e847145aedeb33718548af45d967de83da83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 65/68] fix: missing parameter leaves one empty cell per column

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 13adcac..bd94aec 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -377,7 +377,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 2210a5c2ef1dd9c35efedd6e83968a84a3eb7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 66/68] fix: number formatter given to a results table is used

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index bd94aec..920b06c 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -296,7 +296,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From 3f3f36b361981f2f30b441772b98e124f2a19150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 67/68] fix: results tables of best fits

---
 python/getdist/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 920b06c..5d52879 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -498,7 +498,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, limit=None, **kwargs):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -566,7 +566,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From d68d4f18d4788de81da9516648b0951736fb65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 68/68] fix: latex of parameter shifts

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 5d52879..28c719e 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -816,7 +816,7 @@ class MargeStats(ParamResults):
                             res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0

