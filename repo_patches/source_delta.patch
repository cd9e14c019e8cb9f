From 61ff01909263fc3b79eb767ba5dc7060c4d0ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:31 +0000
Subject: [PATCH 01/31] fix: delayed rejection never accepts candidates whose
 posterior is not a number

---
 pymcmcstat/samplers/DelayedRejection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/DelayedRejection.py b/pymcmcstat/samplers/DelayedRejection.py
index 1817a2e..30e1a9f 100644
--- a/pymcmcstat/samplers/DelayedRejection.py
+++ b/pymcmcstat/samplers/DelayedRejection.py
@@ -147,7 +147,10 @@ class DelayedRejection:
                 logprior=-0.5*x1.prior)
         for kk in range(stage):
             y = y + nth_stage_log_proposal_ratio(kk, trypath, invR)
-        alpha = min(np.ones(1), np.exp(y)*a2*(a1**(-1)))
+        alpha = np.exp(y)*a2*(a1**(-1))
+        if np.isnan(alpha).any():
+            return np.zeros(1)  # posterior is not a number -> never accept
+        alpha = min(np.ones(1), alpha)
 #        alpha =  y + np.log(a2) + np.log((a1**(-1)))
         return alpha
 
-- 
2.43.0


From ab6e05c8f3f5dd02513fe49a1b777491770ec0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:08 +0000
Subject: [PATCH 02/31] fix: keep the delayed rejection stage matrices in step
 with R during burn-in

---
 pymcmcstat/samplers/Adaptation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..b525649 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,6 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
@@ -86,8 +84,8 @@ class Adaptation:
             R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar,
                                               qcov_adjust=qcov_adjust, qcov_scale=qcov_scale,
                                               rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
-            # update dram covariance matrix
-            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
+        # update dram covariance matrix
+        RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
 
         covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum,
                                                       last_index_since_adaptation, iiadapt)
-- 
2.43.0


From b253c7e37a71b5b4f02b649323ba3012f8f188e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:16 +0000
Subject: [PATCH 03/31] fix: adaptation consumes every chain row once also in a
 continued simulation

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index b525649..95e2013 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -72,7 +72,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From bf59a8843081065067caba73015e48d84a647817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:53 +0000
Subject: [PATCH 04/31] fix: the default N0 filled in by one run does not
 switch on error variance updating in the next

---
 pymcmcstat/settings/ModelSettings.py      | 2 ++
 pymcmcstat/settings/SimulationOptions.py  | 2 +-
 pymcmcstat/structures/ResultsStructure.py | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..729c8be 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._default_N0 = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._default_N0 = True  # not a user request to update the error variance
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..78685b8 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and not getattr(model, '_default_N0', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 7c1ae9e..0038d4e 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -279,6 +279,7 @@ class ResultsStructure:
                                   'prior_update_function', 'prior_pars']
         for keyii in do_not_save_these_keys:
             mod = removekey(mod, keyii)
+        mod.pop('_default_N0', None)
         # must convert 'model' object to a dictionary
         self.results['model_settings'] = mod
 
-- 
2.43.0


From 340fb512b38d9f1a8ca8a70d314cdc99027a0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:57 +0000
Subject: [PATCH 05/31] fix: observation counts summed over batches by one run
 are not mistaken for declared counts in the next

---
 pymcmcstat/settings/ModelSettings.py      | 6 ++++--
 pymcmcstat/structures/ResultsStructure.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 729c8be..1e208a8 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -55,6 +55,7 @@ class ModelSettings:
         self.sigma2 = self._array_type(sigma2)
         # check value of N - total number of observations
         self.N = self._array_type(N)
+        self._declared_N = self.N
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
         self._default_N0 = False
@@ -90,8 +91,9 @@ class ModelSettings:
         '''
         if self.nbatch is None:
             self.nbatch = data.get_number_of_batches()
-        if self.N is not None:
-            self.N = self._check_number_of_observations(udN=self.N, dsN=self._array_type(data.n))
+        declared_N = getattr(self, '_declared_N', self.N)  # not the counts normalised by an earlier run
+        if declared_N is not None:
+            self.N = self._check_number_of_observations(udN=declared_N, dsN=self._array_type(data.n))
         else:
             # self.N = data.get_number_of_observations()
             self.N = data.n
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 0038d4e..09c33be 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -280,6 +280,7 @@ class ResultsStructure:
         for keyii in do_not_save_these_keys:
             mod = removekey(mod, keyii)
         mod.pop('_default_N0', None)
+        mod.pop('_declared_N', None)
         # must convert 'model' object to a dictionary
         self.results['model_settings'] = mod
 
-- 
2.43.0


From e906be246b7f0069ad1baeac9fe18af5c15b7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:07 +0000
Subject: [PATCH 06/31] fix: error variance updates do not overwrite the prior
 S20 or the user's arrays

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 1e208a8..b549c96 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -185,7 +185,7 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
-        return x
+        return np.array(x)  # own copy: error variance is updated in place
 
     @classmethod
     def __check_size_of_observations_wrt_nsos(cls, N, nsos, Nshape):
-- 
2.43.0


From 8c417f395e91a4b94057d0ddabd2655271de22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:15 +0000
Subject: [PATCH 07/31] fix: initial error variance defaults to S20 when S20 is
 given

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index b549c96..8fc868d 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -110,7 +110,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From b5844421056cd93a351fe8e7aac8db6dffc63893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:22 +0000
Subject: [PATCH 08/31] fix: refuse observation counts that cannot be matched
 to the error groups

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 8fc868d..c1bc2e2 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -191,7 +191,7 @@ class ModelSettings:
     def __check_size_of_observations_wrt_nsos(cls, N, nsos, Nshape):
         if len(N) == 1:
             N = np.ones(nsos)*N
-        elif len(N) < nsos and len(N) > 1:
+        elif len(N) > 1 and nsos > 1 and len(N) != nsos:
             sys.exit('Unclear data structure!  \
                      SOS function return nsos = {} elements.  len(N) = {}.'.format(nsos, len(N)))
         elif nsos == 1 and len(N) > 1:
-- 
2.43.0


From d843455544156d86c61c2d3242759c48d360e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:46 +0000
Subject: [PATCH 09/31] fix: integer error variance settings are not truncated
 when updated

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index c1bc2e2..073d025 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -185,7 +185,7 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
-        return np.array(x)  # own copy: error variance is updated in place
+        return np.array(x, dtype=float)  # own copy: error variance is updated in place
 
     @classmethod
     def __check_size_of_observations_wrt_nsos(cls, N, nsos, Nshape):
-- 
2.43.0


From ff0b66a161635a25f052963b4165ac790015647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 10/31] fix: binary log blocks are read back in the order they
 were generated, whatever their sizes

---
 pymcmcstat/chain/ChainProcessing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..c1d44d8 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -246,6 +246,11 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
     return chainfolders
 
 
+def _block_order(name):
+    # log blocks are named "nsimu_<first row>_<last row>" - sort by number, not alphabetically
+    return [(0, int(part), '') if part.isdigit() else (1, 0, part) for part in name.split('_')]
+
+
 def read_in_bin_file(filename):
     '''
     Read in information from file containing binary data.
@@ -261,7 +266,7 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        ds = sorted(hf.keys(), key=_block_order)  # data sets, in the order they were generated
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
@@ -277,7 +282,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
-- 
2.43.0


From f7bb856df54f82230d950725e5a37545658d0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:25 +0000
Subject: [PATCH 11/31] fix: loading saved chains with two or more parameters
 does not fail on the emptiness test

---
 pymcmcstat/ParallelMCMC.py          | 2 +-
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..6006747 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -399,7 +399,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index c1d44d8..37488b9 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -87,7 +87,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -123,7 +123,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
-- 
2.43.0


From 6db6b03725c321219bf452d8eb71e5324641588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:42 +0000
Subject: [PATCH 12/31] fix: text logs with one column or one row keep their
 two-dimensional shape when read back

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 37488b9..ab489bb 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -309,7 +309,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From eb94d504591c0f2f375bd2df07cf1244cbc0667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:00 +0000
Subject: [PATCH 13/31] fix: loading parallel results whose json files already
 hold the chains

---
 pymcmcstat/ParallelMCMC.py          | 10 +++++-----
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 6006747..c02e620 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,11 +401,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index ab489bb..0a176f6 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -125,11 +125,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From c4d19a4709ede2375c1679fd855c81af1d872229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:09 +0000
Subject: [PATCH 14/31] fix: parallel results are loaded in chain order also
 for ten or more chains

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 0a176f6..bd1f141 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -242,7 +242,7 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    chainfolders.sort(key=_block_order)  # chain_2 before chain_10
     return chainfolders
 
 
-- 
2.43.0


From 7d6e9969f8c6d9ebd9885d3f893e33b9138628e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:39 +0000
Subject: [PATCH 15/31] fix: interval predictions use the sampled posterior
 rows

---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..6e190f0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From 917686a0e2c501f7cad0754ac173a6076df9c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:48 +0000
Subject: [PATCH 16/31] fix: interval calculations do not overwrite the
 reported parameter values

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 pymcmcstat/propagation.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..7ddbd30 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -120,7 +120,7 @@ class PredictionIntervals:
             self.__nbatch = results['model'].nbatch
         else:
             self.__nbatch = results['model_settings']['nbatch']
-        self.__theta = results['theta']
+        self.__theta = np.array(results['theta'])  # do not modify the reported parameter values
         if 'sstype' in results:
             self.__sstype = results['sstype']
         else:
diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6e190f0..f78313e 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])  # do not modify the reported parameter values
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
-- 
2.43.0


From 41bbae839cf2a7a9b2314532ebdeb125c6033597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:57 +0000
Subject: [PATCH 17/31] fix: plotting prediction intervals with current numpy
 (np.int was removed)

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 7ddbd30..2a18137 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From c5132d92a02c06664d392b7630d136aa7d3c66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 18/31] fix: logging of a continued simulation writes its new
 rows, numbered after the earlier ones

---
 pymcmcstat/MCMC.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..67ea484 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -277,6 +277,12 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # chains to be logged are the expanded ones
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -289,6 +295,10 @@ class MCMC:
         iiprint = 0  # print counter
         savecount = 0  # save counter
         lastbin = 0  # initialize bin counter
+        offset = self.__chain_index  # last row of previous simulation (0 unless continuing)
+        if offset > 0:  # rows up to offset have been saved already
+            savecount = -1
+            lastbin = offset + 1
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
@@ -377,12 +387,12 @@ class MCMC:
             if savecount == self.simulation_options.savesize:
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=self.__chain_index - self.simulation_options.savesize,
+                        end=self.__chain_index)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=self.__chain_index - self.simulation_options.savesize,
+                        end=self.__chain_index,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -395,17 +405,18 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
+        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
         self.__save_to_log_file(
                 chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
                 start=lastbin,
-                end=isimu,
+                end=self.__chain_index,
                 append_to_log=False,
                 covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=lastbin - offset, end=self.__chain_index - offset + 1,
+                                        append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From d01b4e67a93b042f762a165c8ed6bac805aa2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:15 +0000
Subject: [PATCH 19/31] fix: data given as a list becomes a column like a
 one-dimensional array

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..01b0513 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -110,7 +110,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.atleast_1d(np.array(xy))
         return xy
 
     @classmethod
-- 
2.43.0


From a0f9a35efed1c8428eb095aba72476f388c26259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 20/31] fix: number of observations given with a data set is
 not dropped

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 01b0513..46f87b2 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 493295255025bdfa7b03054316314c9988e401e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:30 +0000
Subject: [PATCH 21/31] fix: restart from a results file when not all
 parameters are sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 67ea484..b9ceebe 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # full-size covariance: qcov only covers the sampled parameters
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From 6b95385a6539db106f853409aa368aea00d3e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:38 +0000
Subject: [PATCH 22/31] fix: integer proposal covariances are not truncated in
 the results

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..226a151 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -133,7 +133,7 @@ class CovarianceProcedures:
             qcov[qcov == 0] = 1.0  # if initial value was zero, use 1 as stdev
             qcov = np.diagflat(qcov)  # create covariance matrix
 
-        self._qcov = np.atleast_2d(qcov[:])
+        self._qcov = np.atleast_2d(np.array(qcov, dtype=float))
         self._qcov_original = self._qcov.copy()
 
     def __check_adascale(self, adascale, npar):
-- 
2.43.0


From 5e8ecb4e9491b723b8815d626134d2db31e9da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:45 +0000
Subject: [PATCH 23/31] fix: parallel chains do not share random numbers

---
 pymcmcstat/ParallelMCMC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c02e620..05d69c4 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -349,6 +349,7 @@ def run_serial_simulation(mcstat):
         * **results** (:py:class:`dict`): Results dictionary for serial simulation.
     '''
     print('Processing: {}'.format(mcstat.simulation_options.savedir))
+    np.random.seed()  # forked workers share the parent's generator state
     mcstat.run_simulation()
     return mcstat.simulation_results
 
-- 
2.43.0


From a7fb0a0491a935e20025d4e91d941a1c2c8c67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:21 +0000
Subject: [PATCH 24/31] fix: generated initial values of parallel chains leave
 parameters that are not sampled alone

---
 pymcmcstat/ParallelMCMC.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 05d69c4..f9e0379 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,10 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        if initial_values is None:  # parameters that are not sampled keep their declared value
+            for jj, par in enumerate(parameters.parameters):
+                if not par['sample']:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 0d9b879b29c152b83e1d9d70f59cfe82def2dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:43 +0000
Subject: [PATCH 25/31] fix: set up the delayed rejection stages whenever more
 than one try was requested

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 226a151..257f60f 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -56,7 +56,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From b928420ae5a662bb83579166f3241990e5fc328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 26/31] fix: default error variance does not depend on the
 number of data batches

With a prior accuracy N0 but neither sigma2 nor S20, the default variance had one
entry per data batch; a sum-of-squares function returning fewer groups was then
refused although the user gave no conflicting setting.
---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 073d025..5a37bda 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -113,7 +113,7 @@ class ModelSettings:
             if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
-                self.sigma2 = np.ones(self.nbatch)
+                self.sigma2 = np.ones([1])
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
 
-- 
2.43.0


From b01b026e82d403815b479b3c19061e565e290aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:56 +0000
Subject: [PATCH 27/31] fix: verbose settings display works for methods without
 delayed rejection

display_covariance_settings reads _RDR, which was only defined when delayed
rejection stages were set up, so verbosity >= 2 with mh or am raised AttributeError.
---
 pymcmcstat/procedures/CovarianceProcedures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 257f60f..3b50ee5 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -38,6 +38,7 @@ class CovarianceProcedures:
         self._R = None
         self._qcov_original = None
         self._invR = None
+        self._RDR = None
         self._iacce = None
         self._covchain = None
         self._meanchain = None
-- 
2.43.0


From 07a386aa0b7bc290078ababe3c83597a6d26ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:12 +0000
Subject: [PATCH 28/31] fix: log files stay in step when a one-row chain is
 continued

---
 pymcmcstat/MCMC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index b9ceebe..4607818 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -140,7 +140,8 @@ class MCMC:
         Args:
             * **use_previous_results** (:py:class:`bool`): Flag to indicate whether simulation is being restarted.
         '''
-        if use_previous_results is True:
+        self.__continued = use_previous_results is True
+        if self.__continued is True:
             if self._mcmc_status is True:
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
@@ -297,7 +298,7 @@ class MCMC:
         savecount = 0  # save counter
         lastbin = 0  # initialize bin counter
         offset = self.__chain_index  # last row of previous simulation (0 unless continuing)
-        if offset > 0:  # rows up to offset have been saved already
+        if self.__continued is True:  # rows up to offset have been saved already
             savecount = -1
             lastbin = offset + 1
         nsimu = self.simulation_options.nsimu
-- 
2.43.0


From 1e54418a9aec046adb75eaf4748fe2ad1b00fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:53 +0000
Subject: [PATCH 29/31] fix: continuing a logged simulation by no rows writes
 no empty block

---
 pymcmcstat/MCMC.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 4607818..be8c8ce 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -407,18 +407,19 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
-        self.__save_to_log_file(
-                chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                start=lastbin,
-                end=self.__chain_index,
-                append_to_log=False,
-                covmtx=True)
-        # add custom chains is applicable
-        for cs in self.custom_samplers:
-            if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin - offset, end=self.__chain_index - offset + 1,
-                                        append_to_log=False)
+        if lastbin <= self.__chain_index:  # no rows are left if a continued simulation added none
+            self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
+            self.__save_to_log_file(
+                    chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
+                    start=lastbin,
+                    end=self.__chain_index,
+                    append_to_log=False,
+                    covmtx=True)
+            # add custom chains is applicable
+            for cs in self.custom_samplers:
+                if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
+                    self.__save_to_log_file(cs.chains, start=lastbin - offset, end=self.__chain_index - offset + 1,
+                                            append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From 0daeb238e8c17d4b270fded032642edf51f61c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:18 +0000
Subject: [PATCH 30/31] fix: do not adapt beyond the lastadapt option

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index be8c8ce..7431084 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -354,7 +354,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
-- 
2.43.0


From 9c7f49e07914af21ac0b0e441c29fb976e4e5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:39 +0000
Subject: [PATCH 31/31] fix: a last adaptation step that was not given follows
 the length of each run

---
 pymcmcstat/settings/SimulationOptions.py  | 5 +++--
 pymcmcstat/structures/ResultsStructure.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index 78685b8..7b30728 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -126,6 +126,7 @@ class SimulationOptions:
         self.printint = printint  # print interval
         self.adaptend = adaptend   # last adapt
         self.lastadapt = lastadapt  # last adapt
+        self._default_lastadapt = None
         self.burnintime = burnintime
         self.waitbar = bool(waitbar)  # use waitbar
         self.debug = debug  # show some debug information
@@ -189,8 +190,8 @@ class SimulationOptions:
             self.dodram = 1
         else:
             self.dodram = 0
-        if self.lastadapt < 1:
-            self.lastadapt = self.nsimu
+        if self.lastadapt < 1 or self.lastadapt == getattr(self, '_default_lastadapt', None):
+            self.lastadapt = self._default_lastadapt = self.nsimu  # not given: follows nsimu
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 09c33be..2e36a22 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -263,6 +263,7 @@ class ResultsStructure:
         for keyii in do_not_save_these_keys:
             opt = removekey(opt, keyii)
         # must convert 'options' object to a dictionary
+        opt.pop('_default_lastadapt', None)
         self.results['simulation_options'] = opt
 
     def add_model(self, model=None):
-- 
2.43.0

