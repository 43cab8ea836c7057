From 7d859ef8dacb6914ab7c0b452b432e55bcde3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 01/34] fix: traj and k_map used the trajectory matrices of
 earlier parameters

---
 pydsge/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..ff2b9a4 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -193,6 +193,9 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
 
+    # trajectory matrices (see `traj` and `k_map`) of previous parameters are obsolete
+    self.__dict__.pop("precalc_tmat", None)
+
     if verbose:
         print(
             "[preprocess:]".ljust(15, " ")
-- 
2.43.0


From 1303a29ab1f71bcdb8bc273cc6b608880e10d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 02/34] fix: mcmc without explicit tune failed after sampling

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..305d312 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 1f7f7e1828e7b1651898511daec7cd0a4e9e3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 03/34] fix: mcmc stored the mode in sampling space if
 use_prior_transform

---
 pydsge/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 305d312..278b38b 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -170,6 +170,10 @@ def mcmc(
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
 
+        if self.bptrans:
+            # the chain is in sampling space, the mode is a parameter vector
+            mode_x = self.bptrans(mode_x)
+
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
 
-- 
2.43.0


From 96971773b91998f02a230c9bd64e4155c40d70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 04/34] fix: mcmc could not create the default initial
 ensemble, and deleted the chain before checking nwalks

---
 pydsge/mcmc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 278b38b..d69c415 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -103,6 +103,11 @@ def mcmc(
     if self.pool:
         self.pool.clear()
 
+    if not nwalks and p0 is None and not (resume or append):
+        raise TypeError(
+            "If neither `resume`, `append` or `p0` is given I need to know the number of walkers (`nwalks`)."
+        )
+
     if p0 is None and not resume:
         if temp < 1:
             p0 = get_par(
@@ -110,12 +115,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
@@ -142,10 +147,6 @@ def mcmc(
         backend = emcee.backends.HDFBackend(backend)
 
         if not (resume or append):
-            if not nwalks:
-                raise TypeError(
-                    "If neither `resume`, `append` or `p0` is given I need to know the number of walkers (`nwalks`)."
-                )
             try:
                 backend.reset(nwalks, self.ndim)
             except KeyError as e:
-- 
2.43.0


From 36f306b73658bc9b16728fafc685b9eae686c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 05/34] fix: mcmc took the initial ensemble to be in sampling
 space if use_prior_transform

---
 pydsge/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index d69c415..312f521 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -125,6 +125,10 @@ def mcmc(
     elif not resume:
         nwalks = p0.shape[0]
 
+    if self.bptrans and not resume:
+        # p0 is in the parameter space, but the sampler works in sampling space
+        p0 = self.bptrans(p0, sampler_to_prior=False)
+
     if backend:
 
         if isinstance(backend, str):
-- 
2.43.0


From 9b3ea161dc51c1d7e10261fe13801cd8fac26d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 06/34] fix: mcmc with an explicit backend file failed on a
 loaded model

---
 pydsge/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 312f521..976a478 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -135,7 +135,7 @@ def mcmc(
             # backend_file will only be loaded later if explicitely defined before
             self.fdict["backend_file"] = backend
         try:
-            backend = self.fdict["backend_file"]
+            backend = str(self.fdict["backend_file"])
         except KeyError:
             # this is the default case
             suffix = str(suffix) if suffix else "_sampler.h5"
-- 
2.43.0


From 7857389f4aab0e1765a9cb8381fb38e0a1811822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 07/34] fix: models prepared without a pool could not be
 simulated, sampled or extracted

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..483d61d 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 976a478..3443176 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None):
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..10cfc0e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..7a1ac7e 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -208,7 +208,7 @@ def irfs(
     if not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -416,7 +416,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 1ca4625a55b31d2c0a5c7976ae9895b58e6009cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 08/34] fix: reusing a parsed model kept the directory and
 functions file of the first one

---
 pydsge/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..a042137 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -31,8 +31,7 @@ def crawl_cached_models(mtxt, ftxt):
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
 
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
@@ -517,6 +516,7 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
@@ -577,7 +577,7 @@ class DSGE(Model):
         fdict = dict(np.load(npzfile, allow_pickle=True))
 
         mtxt = str(fdict["yaml_raw"])
-        ftxt = str(fdict.get("ffile_raw"))
+        ftxt = str(fdict["ffile_raw"]) if "ffile_raw" in fdict else None
 
         try:
             if force_parse:
-- 
2.43.0


From 60abb3f410e2ce471b007069fb72ab7358c43cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 09/34] fix: prep_estim without explicit seed ignored the
 default seed

---
 pydsge/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index fa265e1..4ff6ddf 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -55,9 +55,6 @@ def prep_estim(
 
     import warnings
 
-    # all that should be reproducible
-    np.random.seed(seed)
-
     if N is None:
         if "filter_n" in self.fdict.keys():
             N = int(self.fdict["filter_n"])
@@ -78,6 +75,9 @@ def prep_estim(
         else:
             seed = 0
 
+    # all that should be reproducible
+    np.random.seed(seed)
+
     if not "reduced_form" in filterargs:
         filterargs["reduced_form"] = True
 
-- 
2.43.0


From c60ace8269a4e13189b8bfe6f57244092b607f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 10/34] fix: get_par with a named parameter set replaced the
 current parameters

---
 pydsge/mpile.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 10cfc0e..4ee62d6 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -190,13 +190,18 @@ def get_par(
                 )
 
         else:
-            old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                # draws are tested on top of the calibrated parameters
+                old_par = self.par
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    if self.par is self.par_fix:
+                        self.par = old_par
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -239,7 +244,6 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From b928c9290881e9087a0918f15b8fe24584cdbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 11/34] fix: get_cov for given parameters recompiled the model
 with these

---
 pydsge/mpile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 4ee62d6..099b2d9 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -174,8 +174,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "cov_mat":
-            gen_sys(self, pars, **args)
-            p = self.QQ(self.ppar)
+            p = self.QQ(self.pcompile(list(pars)))
             if verbose:
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
-- 
2.43.0


From becebf1836c905c5866fbfd1211952e425f8b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 12/34] fix: o_func for given parameters left the model with
 mixed parameters

---
 pydsge/tools.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 7a1ac7e..632d859 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -117,14 +117,19 @@ def o_func(self, state, covs=None, pars=None):
     if pars is not None:
 
         obs = []
-        for sti, par in zip(state, pars):
-            self.set_par(par, get_hx_only=True)
-            ob = (
-                sti[:, : self.dimp] @ self.hx[0].T
-                + sti[:, self.dimp:] @ self.hx[1].T
-                + self.hx[2]
-            )
-            obs.append(ob)
+        old_par = list(self.par)
+        try:
+            for sti, par in zip(state, pars):
+                self.set_par(par, get_hx_only=True)
+                ob = (
+                    sti[:, : self.dimp] @ self.hx[0].T
+                    + sti[:, self.dimp:] @ self.hx[1].T
+                    + self.hx[2]
+                )
+                obs.append(ob)
+        finally:
+            # the system matrices still belong to the old parameters
+            self.set_par(old_par, get_hx_only=True)
 
         return np.array(obs)
 
-- 
2.43.0


From 124456c4541d4b620d183ed4b6dc841774c2e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 13/34] fix: simulate without source failed

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 632d859..8347147 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -470,7 +470,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From bae1c1e018f93d747f69c5eeb842ce78148df81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 14/34] fix: extract repeated failed attempts with the same
 seed

---
 pydsge/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 483d61d..63554e8 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -446,7 +446,7 @@ def extract(
                     X=sample,
                     init_states=inits,
                     verbose=max(len(sample) == 1, verbose - 1),
-                    seed=seed_loc,
+                    seed=seed_loc + natt,
                     nsamples=1,
                     **npasargs
                 )
-- 
2.43.0


From fc3ab0be4dfb020a68b0ee1e7bb9bb7286d4ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 15/34] fix: models saved without data could not be loaded

---
 pydsge/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index a042137..d69a3e1 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -618,7 +618,8 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From bf3d9b8f209941f7de9c475136941fa44b0edff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 16/34] fix: load_rdict could not load what save_rdict saved
 under a name with .npz

---
 pydsge/clsmethods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..a1c68eb 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,9 +182,12 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
+    if path[-4:] == ".npz":
+        path = path[:-4]
+
     path += suffix
 
-    if path[-4] != ".npz":
+    if path[-4:] != ".npz":
         path += ".npz"
 
     if not os.path.isabs(path):
-- 
2.43.0


From 1cfd486b0de3e87238bcec56d529e19eb426ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:10 +0000
Subject: [PATCH 17/34] fix: o_func for given parameters with a model that is
 not compiled yet

---
 pydsge/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 8347147..3e1e2e5 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -117,7 +117,7 @@ def o_func(self, state, covs=None, pars=None):
     if pars is not None:
 
         obs = []
-        old_par = list(self.par)
+        old_par = getattr(self, "par", None)
         try:
             for sti, par in zip(state, pars):
                 self.set_par(par, get_hx_only=True)
@@ -129,7 +129,8 @@ def o_func(self, state, covs=None, pars=None):
                 obs.append(ob)
         finally:
             # the system matrices still belong to the old parameters
-            self.set_par(old_par, get_hx_only=True)
+            if old_par is not None:
+                self.set_par(old_par, get_hx_only=True)
 
         return np.array(obs)
 
-- 
2.43.0


From 255bd06a93515cd5e04d530edc387ab1a8e882eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:10 +0000
Subject: [PATCH 18/34] fix: an interrupted save destroyed the previously saved
 metadata or results

---
 pydsge/clsmethods.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index a1c68eb..fdf95ee 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -120,6 +120,27 @@ def write_yaml(self, filename):
     return
 
 
+def savez_atomic(filename, objs):
+    """Write a `*.npz` file as a whole: neither a crash nor a full disk leaves a damaged file behind"""
+
+    filename = os.fspath(filename)
+    if not filename.endswith(".npz"):
+        filename += ".npz"
+
+    tmpname = filename + ".tmp"
+
+    try:
+        with open(tmpname, "wb") as f:
+            np.savez_compressed(f, **objs)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmpname, filename)
+    except BaseException:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+        raise
+
+
 def save_meta(self, filename=None, verbose=True):
 
     import os
@@ -139,7 +160,7 @@ def save_meta(self, filename=None, verbose=True):
         except:
             pass
 
-    np.savez_compressed(filename, **self.fdict)
+    savez_atomic(filename, self.fdict)
 
     if verbose:
         print("[save_meta:]".ljust(15, " ") +
@@ -163,7 +184,7 @@ def save_rdict(self, rdict, path=None, suffix="", verbose=True):
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
 
-    np.savez_compressed(path + suffix, **rdict)
+    savez_atomic(path + suffix, rdict)
 
     if verbose:
         print(
-- 
2.43.0


From 00ca67c854de0e4310d3b14404785ae920ccd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:26 +0000
Subject: [PATCH 19/34] fix: a model could be parsed with functions of an
 earlier version of its functions file

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index d69a3e1..efd95c6 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -390,7 +390,10 @@ class DSGE(Model):
 
             spec = iu.spec_from_file_location("module", self.func_file)
             module = iu.module_from_spec(spec)
-            spec.loader.exec_module(module)
+            # byte code cached by the import system may belong to an earlier version of the file
+            source = spec.loader.get_data(self.func_file)
+            exec(spec.loader.source_to_code(
+                source, self.func_file), module.__dict__)
 
             funcs_list = [
                 o for o in inspect.getmembers(module) if inspect.isroutine(o[1])
-- 
2.43.0


From f758451c4624f158e3340f773d0400daabc5a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:29 +0000
Subject: [PATCH 20/34] fix: set_par took names of parameter sets for vectors
 if they happen to have the same length

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 099b2d9..7480765 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -318,9 +318,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From 826d44ba29f7137015506993c2e847621f15c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:52 +0000
Subject: [PATCH 21/34] fix: search for the durations read beyond the matrices
 if the model is solved for k=0 only

---
 pydsge/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index ff2b9a4..49deb93 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -293,7 +293,11 @@ def find_lk(bmat, bterm, x_bar, q):
             l, k = 0, 0
             loop_type = False
 
-            while True:
+            # nothing to iterate over if the model is solved for k=0 only
+            if k_max == 1:
+                flag = 2
+
+            while k < k_max - 1:
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
-- 
2.43.0


From 210ad7993065946f967d7db3fbdb9c26815af24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:34 +0000
Subject: [PATCH 22/34] fix: the description of a loaded model was lost with
 the next save if the model was parsed before

---
 pydsge/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index efd95c6..1ef5e99 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -637,6 +637,10 @@ class DSGE(Model):
             if str(pmodel.fdict[ob]) == "None":
                 pmodel.fdict[ob] = None
 
+        if pmodel.fdict.get("description") is not None:
+            # otherwise the next save would store that of a parsed model
+            pmodel.description = str(pmodel.fdict["description"])
+
         if verbose:
             print(
                 "[DSGE:]".ljust(15, " ")
-- 
2.43.0


From 36bbdb2b2c8fb71f9ac66490c40a7939bd61502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:12 +0000
Subject: [PATCH 23/34] fix: models from the cache or from a file lost the
 leads and lags in their equations

---
 pydsge/symbols.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydsge/symbols.py b/pydsge/symbols.py
index a8c86c6..558710f 100644
--- a/pydsge/symbols.py
+++ b/pydsge/symbols.py
@@ -21,6 +21,11 @@ class Parameter(sympy.Symbol):
         self.prior = prior
 
 
+def _restore_tsymbol(cls, name, date, exp_date):
+    clear_cache()
+    return cls(name, date=date, exp_date=exp_date)
+
+
 class TSymbol(sympy.Symbol):
 
     def __init__(self, name, **args):
@@ -64,6 +69,10 @@ class TSymbol(sympy.Symbol):
     def __getstate__(self):
         return {}
 
+    def __reduce__(self):
+        # sympy would take the dates for (boolean) assumptions
+        return _restore_tsymbol, (self.__class__, self.name, self.date, self.exp_date)
+
     def class_key(self):
         return (2, 0, self.name, self.date)
 
-- 
2.43.0


From 0ae4548b0b04a94995eab07a2f4bfd94729970f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:26 +0000
Subject: [PATCH 24/34] fix: a failing evaluation raised with verbose messages
 if a prior has no bounds

---
 pydsge/mpile.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 7480765..c47c318 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -378,18 +378,19 @@ def box_check(self, par=None):
 
         lb, ub = self.fdict["prior_bounds"]
 
-        if par[i] < lb[i]:
+        # a bound of `None` means unbounded
+        if lb[i] is not None and par[i] < lb[i]:
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s lower than lb of %s."
-                % (name, par[i].round(5), lb[i])
+                % (name, np.round(par[i], 5), lb[i])
             )
 
-        if par[i] > ub[i]:
+        if ub[i] is not None and par[i] > ub[i]:
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s higher than ub of %s."
-                % (name, par[i].round(5), ub[i])
+                % (name, np.round(par[i], 5), ub[i])
             )
 
     return
-- 
2.43.0


From d7dcffa432aa796d19121bf4992e8ad856c65890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:26 +0000
Subject: [PATCH 25/34] fix: irfs for given parameters with another horizon
 used the horizon of the model

---
 pydsge/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3e1e2e5..6af6e6f 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -222,8 +222,6 @@ def irfs(
     st = time.time()
     nstates = self.dimx
 
-    l_max, k_max = self.lks
-
     # accept all sorts of inputs
     new_shocklist = []
 
@@ -253,6 +251,9 @@ def irfs(
                 L[:] = np.nan
                 return X, K, L, 4, 4
 
+        # these may come with the parameters
+        l_max, k_max = pelf.lks
+
         st_vec = state if state is not None else np.zeros(nstates)
 
         supererrflag = False
-- 
2.43.0


From d8acd8b208a1fe37f1610ed460b6131ee107a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 26/34] fix: extracting shocks changed filter and parameters of
 the model

---
 pydsge/filtering.py |  4 ++++
 pydsge/utils.py     | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 63554e8..300b9c5 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -9,6 +9,7 @@ from econsieve import KalmanFilter, TEnKF
 from grgrlib import timeprint
 from grgrlib.multiprocessing import serializer
 from econsieve.stats import logpdf
+from .utils import detached
 
 
 def create_obs_cov(self, scale_obs=0.1):
@@ -362,6 +363,9 @@ def extract(
 
         create_pool(self)
 
+    # neither parameters nor filter of the model shall change
+    self = detached(self)
+
     run_filter = serializer(self.run_filter)
 
     if fname == "ParticleFilter":
diff --git a/pydsge/utils.py b/pydsge/utils.py
index e915609..1318321 100644
--- a/pydsge/utils.py
+++ b/pydsge/utils.py
@@ -1,5 +1,18 @@
+from copy import copy
 from sympy import Equality
 
+
+def detached(self):
+    """Get a shallow copy of the model that can be compiled with other parameters while the model itself stays as it is"""
+
+    pelf = copy(self)
+
+    if hasattr(pelf, "filter"):
+        pelf.filter = copy(pelf.filter)
+
+    return pelf
+
+
 def _dumper(obj, name=None, eq:str="=", indent:int=4, currindent:int=0):
     """Recursively dump (print) an object in a somewhat structured but human-readable manner.
 
-- 
2.43.0


From 0c4c2f21b7b39c2ad03ec499a0d0a0181ebd56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 27/34] fix: initial covariances given for one filter run were
 kept for all later ones

---
 pydsge/filtering.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 300b9c5..fc678ab 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -164,8 +164,8 @@ def run_filter(
 
     dimp = self.dimp
 
-    if init_cov is not None:
-        self.filter.init_cov = init_cov
+    if init_cov is None:
+        init_cov = self.filter.init_cov
 
     # assign current transition & observation functions (of parameters)
     if self.filter.name == "KalmanFilter":
@@ -189,13 +189,13 @@ def run_filter(
             )
             self.filter.Q = E @ self.filter.Q @ E.T
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
                 F[dimp:, dimp:], self.filter.Q[dimp:, dimp:]
             )
             self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     elif self.filter.name == "InversionFilter":
 
@@ -215,7 +215,7 @@ def run_filter(
         self.filter.t_func = lambda *x: self.t_func(*x, get_obs=True)
         self.filter.o_func = None
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             qmat = self.precalc_mat[1]
             F = qmat[1, 0][: -self.neps, : -self.neps]
             E = qmat[1, 0][: -self.neps, -self.neps:]
@@ -224,16 +224,16 @@ def run_filter(
 
             self.filter.P = sl.solve_discrete_lyapunov(F, Q)
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     else:
         self.filter.t_func = self.t_func
         self.filter.o_func = self.o_func
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             self.filter.P = get_p_init_lyapunov(self, self.filter.Q)
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     self.filter.get_eps = self.get_eps_lin
 
-- 
2.43.0


From 83209b98e602abb3f8733e8f0775b34db596d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 28/34] fix: infinite likelihoods were accepted

---
 pydsge/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index fc678ab..d117fb5 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -291,7 +291,8 @@ def run_filter(
             res = self.filter.rts_smoother(res, rcond=rcond)
 
     if get_ll:
-        if np.isnan(res):
+        if not np.isfinite(res):
+            # also if infinite, for that is a numerical failure
             res = -np.inf
         self.ll = res
     else:
-- 
2.43.0


From aeda773564e15a1b47f3f42ead7147581b09dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 29/34] fix: drawing from the prior changed the parameters of
 the model

---
 pydsge/mpile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index c47c318..e9e4a06 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -11,6 +11,7 @@ import numpy as np
 from emcwrap import get_prior_sample, get_prior
 from grgrlib.multiprocessing import serializer
 from .stats import post_mean
+from .utils import detached
 
 
 def posterior_sampler(self, nsamples, seed=0, verbose=True):
@@ -86,7 +87,12 @@ def prior_sampler(
     elif try_parameter:
         check_func = serializer(self.set_par)
 
-    return get_prior_sample(frozen_prior, nsamples, check_func=check_func, mapper=self.mapper, verbose=verbose, **kwargs)
+    state = detached(self)
+    try:
+        return get_prior_sample(frozen_prior, nsamples, check_func=check_func, mapper=self.mapper, verbose=verbose, **kwargs)
+    finally:
+        # without a pool the draws are tested on the model itself
+        self.__dict__.update(state.__dict__)
 
 
 def get_par(
@@ -199,8 +205,7 @@ def get_par(
                         self, nsamples=nsamples, verbose=verbose, debug=debug, **args
                     )
                 finally:
-                    if self.par is self.par_fix:
-                        self.par = old_par
+                    self.par = old_par
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
-- 
2.43.0


From 8b924d6707f260fe0a59603612d16af2cc8a4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 30/34] fix: historic and variance decompositions changed the
 parameters of the model

---
 pydsge/stats.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..e702c30 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -14,6 +14,7 @@ from grgrlib import timeprint
 from grgrlib.stats import mode
 
 from emcwrap.dists import InvGammaDynare  # to maintain picklability
+from .utils import detached
 
 
 def pmdm_report(self, x_max, res_max, n=np.inf, printfunc=print):
@@ -69,6 +70,9 @@ def gfevd(
     """
     np.random.seed(seed)
 
+    # the parameters of the model shall not change
+    self = detached(self)
+
     states = eps_dict["means"]
     if np.ndim(states) == 2:
         states = np.expand_dims(states, 0)
@@ -150,6 +154,9 @@ def mbcs_index(self, vd, verbose=True):
 def nhd(self, eps_dict, linear=False, **args):
     """Calculates the normalized historic decomposition, based on normalized counterfactuals"""
 
+    # the parameters of the model shall not change
+    self = detached(self)
+
     states = eps_dict["init"]
     pars = eps_dict["pars"]
     resids = eps_dict["resid"]
-- 
2.43.0


From 431fcdc899ecfef5c7e67365c68e973ed67123b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 31/34] fix: editing the initial values or the mode that
 get_par returns changed the model

---
 pydsge/mpile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index e9e4a06..51f82ad 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -8,6 +8,7 @@ import dill
 import tqdm
 import random
 import numpy as np
+from copy import copy
 from emcwrap import get_prior_sample, get_prior
 from grgrlib.multiprocessing import serializer
 from .stats import post_mean
@@ -213,7 +214,7 @@ def get_par(
             elif dummy == "posterior_mean" or dummy == "post_mean":
                 par_cand = post_mean(self)
             elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
-                par_cand = self.fdict["mode_x"]
+                par_cand = copy(self.fdict["mode_x"])
             elif dummy == "calib":
                 par_cand = self.par_fix[self.prior_arg].copy()
             elif dummy == "prior_mean":
@@ -242,7 +243,7 @@ def get_par(
                             par_cand.append(self.prior[pp][(-2)])
 
             elif dummy == "init":
-                par_cand = self.fdict["init_value"]
+                par_cand = copy(self.fdict["init_value"])
                 for i in range(self.ndim):
                     if par_cand[i] is None:
                         par_cand[i] = self.par_fix[self.prior_arg][i]
-- 
2.43.0


From 6d67868bee98e0cd9b633d99446086050645dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:21 +0000
Subject: [PATCH 32/34] fix: leads of three or more periods were taken for
 leads of two periods

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 1ef5e99..b6faf29 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -871,7 +871,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From a6e0552b2ea7b3f57c853497331e4de5bb57c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:44 +0000
Subject: [PATCH 33/34] fix: models compiled from the same dictionary of
 matrices were one and the same object

---
 pydsge/gensys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..5e00632 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -8,6 +8,7 @@ import sys
 import numpy as np
 import scipy.linalg as sl
 import cloudpickle as cpickle
+from copy import deepcopy
 from grgrlib import fast0, ouc, klein, speed_kills
 from .engine import preprocess
 from .clsmethods import Model
@@ -35,7 +36,7 @@ def gen_sys_from_dict(
                     "[get_sys:]".ljust(15, " ")
                     + " Model dict was already processed. Loading from cache."
                 )
-            return processed_mdicts[mdict_dump]
+            return deepcopy(processed_mdicts[mdict_dump])
     else:
         processed_mdicts = {}
 
@@ -95,7 +96,8 @@ def gen_sys_from_dict(
         verbose,
     )
 
-    processed_mdicts[cpickle.dumps(mdict)] = res_sys
+    # whatever is done to the model shall not affect those returned later
+    processed_mdicts[cpickle.dumps(mdict)] = deepcopy(res_sys)
 
     return res_sys
 
-- 
2.43.0


From a89860a31af688e2183948db007ccbec245bc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 34/34] fix: processes that save under the same name at the
 same time damaged the file

---
 pydsge/clsmethods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index fdf95ee..92d2d03 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -127,7 +127,8 @@ def savez_atomic(filename, objs):
     if not filename.endswith(".npz"):
         filename += ".npz"
 
-    tmpname = filename + ".tmp"
+    # not shared with other processes that save under the same name
+    tmpname = "%s.%s.tmp" % (filename, os.getpid())
 
     try:
         with open(tmpname, "wb") as f:
-- 
2.43.0

