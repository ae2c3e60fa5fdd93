From 73ce4e3f746475c512f7061de4de42b917b71fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 01/41] fix: sprm and snipls keep the scale and columns
 settings chosen by the user when fitting

---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 36 +++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..5bf9ee3 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..0a838c6 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -189,31 +189,33 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -229,10 +231,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -247,8 +249,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -269,7 +271,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -320,7 +322,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -336,7 +338,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -414,7 +416,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From 4d1563039bae7544ee7b235ded0f6a5856835624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 02/41] fix: case weights for new data no longer refit the
 scaling object stored in the sprm model

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0a838c6..0546713 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -519,7 +519,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Tn = self.transform(Xn)
-        scaling = self.scalingt_
+        scaling = copy.deepcopy(self.scalingt_)
         scalet = self.scale
         if scalet == "None":
             scaling.set_params(scale="mad")
-- 
2.43.0


From a0a90037cedd968f1e80741843173e62cc961d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 03/41] fix: a failed sprm refit no longer leaves a mixture of
 the old and the new model

---
 src/direpack/sprm/sprm.py | 71 +++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0546713..0e7902b 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -137,7 +137,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         self.probctx_ = "irrelevant"
         self.probcty_ = "irrelevant"
         self.hampelbx_ = "irrelevant"
-        self.hampelby__ = "irrelevant"
+        self.hampelby_ = "irrelevant"
         self.hampelrx_ = "irrelevant"
         self.hampelry_ = "irrelevant"
         self.non_zero_scale_vars_ = None
@@ -222,10 +222,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         ys = scaling.fit_transform(y).astype("float64")
         my = scaling.col_loc_
         sy = scaling.col_sca_
-        setattr(self, "x_loc_", mX)
-        setattr(self, "y_loc_", my)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "y_sca_", sy)
+        x_sca = sX
         ys = np.array(ys).reshape(-1)
 
         zero_scale = np.where(sX < 1e-5)[0]
@@ -257,8 +254,6 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     "Upon removal of zero scale variables, the number of components is too large. Please reduce to {p} maximally."
                 )
 
-        self.non_zero_scale_vars_ = vars_to_keep
-
         if self.start_X_init == "pcapp":
             U, S, V = np.linalg.svd(Xs)
             spc = np.square(S)
@@ -277,28 +272,29 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             wy = (y - np.median(y, axis=0)) / (
                 1.4826 * np.median(abs(y - np.median(y, axis=0)), axis=0)
             )
-        self.probcty_ = norm.ppf(self.probp1)
+        hampelbx = hampelby = hampelrx = hampelry = "irrelevant"
+        probcty = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
-            self.probctx_ = chi2.ppf(self.probp1, relcomp)
+            probctx = chi2.ppf(self.probp1, relcomp)
         else:
-            self.probctx_ = self.probcty_
+            probctx = probcty
         if self.fun == "Fair":
-            wx = Fair(wx, self.probctx_)
-            wy = Fair(wy, self.probcty_)
+            wx = Fair(wx, probctx)
+            wy = Fair(wy, probcty)
         if self.fun == "Huber":
-            wx = Huber(wx, self.probctx_)
-            wy = Huber(wy, self.probcty_)
+            wx = Huber(wx, probctx)
+            wy = Huber(wy, probcty)
         if self.fun == "Hampel":
-            self.hampelby_ = norm.ppf(self.probp2)
-            self.hampelry_ = norm.ppf(self.probp3)
+            hampelby = norm.ppf(self.probp2)
+            hampelry = norm.ppf(self.probp3)
             if self.start_cutoff_mode == "specific":
-                self.hampelbx_ = chi2.ppf(self.probp2, relcomp)
-                self.hampelrx_ = chi2.ppf(self.probp3, relcomp)
+                hampelbx = chi2.ppf(self.probp2, relcomp)
+                hampelrx = chi2.ppf(self.probp3, relcomp)
             else:
-                self.hampelbx_ = self.hampelby_
-                self.hampelrx_ = self.hampelry_
-            wx = Hampel(wx, self.probctx_, self.hampelbx_, self.hampelrx_)
-            wy = Hampel(wy, self.probcty_, self.hampelby_, self.hampelry_)
+                hampelbx = hampelby
+                hampelrx = hampelry
+            wx = Hampel(wx, probctx, hampelbx, hampelrx)
+            wy = Hampel(wy, probcty, hampelby, hampelry)
         wx = np.array(wx).reshape(-1)
         wy = np.array(wy).reshape(-1)
         w = (wx * wy).astype("float64")
@@ -348,19 +344,17 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             wye = r.reshape(-1)
             wte = wtn
             if self.fun == "Fair":
-                wte = Fair(wtn, self.probctx_)
-                wye = Fair(wye, self.probcty_)
+                wte = Fair(wtn, probctx)
+                wye = Fair(wye, probcty)
             if self.fun == "Huber":
-                wte = Huber(wtn, self.probctx_)
-                wye = Huber(wye, self.probcty_)
+                wte = Huber(wtn, probctx)
+                wye = Huber(wye, probcty)
             if self.fun == "Hampel":
-                self.probctx_ = chi2.ppf(self.probp1, self.n_components)
-                self.hampelbx_ = chi2.ppf(self.probp2, self.n_components)
-                self.hampelrx_ = chi2.ppf(self.probp3, self.n_components)
-                wte = Hampel(wtn, self.probctx_,
-                             self.hampelbx_, self.hampelrx_)
-                wye = Hampel(wye, self.probcty_,
-                             self.hampelby_, self.hampelry_)
+                probctx = chi2.ppf(self.probp1, self.n_components)
+                hampelbx = chi2.ppf(self.probp2, self.n_components)
+                hampelrx = chi2.ppf(self.probp3, self.n_components)
+                wte = Hampel(wtn, probctx, hampelbx, hampelrx)
+                wye = Hampel(wye, probcty, hampelby, hampelry)
             b2sum = np.sum(np.power(b, 2))
             difference = abs(b2sum - rold) / rold
             rold = b2sum
@@ -454,6 +448,17 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_caseweights_", wye)
         setattr(self, "caseweights_", we)
         setattr(self, "colret_", res_snipls.colret_)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "y_loc_", my)
+        setattr(self, "x_sca_", x_sca)
+        setattr(self, "y_sca_", sy)
+        setattr(self, "non_zero_scale_vars_", vars_to_keep)
+        setattr(self, "probctx_", probctx)
+        setattr(self, "probcty_", probcty)
+        setattr(self, "hampelbx_", hampelbx)
+        setattr(self, "hampelby_", hampelby)
+        setattr(self, "hampelrx_", hampelrx)
+        setattr(self, "hampelry_", hampelry)
         setattr(self, "scaling_", scaling)
         setattr(self, "scalingt_", scalingt)
         return self
-- 
2.43.0


From b650084737ab69707ab5829e208084c466b68ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 04/41] fix: sprm and rm models fitted with copy=False can
 predict and transform

---
 src/direpack/sprm/rm.py   | 2 +-
 src/direpack/sprm/sprm.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..3148c95 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -262,7 +262,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
 
     def predict(self, Xn):
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0e7902b..fc98486 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -475,7 +475,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Input data.
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -497,7 +497,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -517,7 +517,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -548,7 +548,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From bbe3b84c51a3d0cbb40fcf20c606c5b65ad88e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 05/41] fix: rm without scaling works for every centring method

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3148c95..6d2e083 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -236,8 +236,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From 1c4bee6697aec84e665a90e6a6067535fc17e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 06/41] fix: snipls results do not contain uninitialised memory
 when no variable is retained

---
 src/direpack/sprm/snipls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 5bf9ee3..cd9ad71 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -161,12 +161,12 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             S = np.matmul(X0.T, X0)
             dot = np.dot
         s0 = dot(X0.T, y0)
-        T = np.empty((n, self.n_components), float)
-        W = np.empty((p, self.n_components), float)
-        P = np.empty((p, self.n_components), float)
-        C = np.empty((self.n_components, 1), float)
-        Xev = np.empty((self.n_components, 1), float)
-        yev = np.empty((self.n_components, 1), float)
+        T = np.zeros((n, self.n_components), float)
+        W = np.zeros((p, self.n_components), float)
+        P = np.zeros((p, self.n_components), float)
+        C = np.zeros((self.n_components, 1), float)
+        Xev = np.zeros((self.n_components, 1), float)
+        yev = np.zeros((self.n_components, 1), float)
         B = np.empty((p, 1), float)
         oldgoodies = np.array([])
         Xi = X0
-- 
2.43.0


From 5249808a82b58d8dbce0dc976995ecbd015b0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:25 +0000
Subject: [PATCH 07/41] fix: dicomo.fit keeps the centring chosen by the user

---
 src/direpack/dicomo/dicomo.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..d7550b3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From cbc0b541ca33c6f4e254570deb1863fa5e324f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 08/41] fix: capi applies changed projection index settings and
 keeps its centring setting

---
 src/direpack/ppdire/capi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..09eab7b 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -66,7 +66,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.projection_index = projection_index
         self.pi_arguments = pi_arguments
         self.weights = weights
-        self.most = self.projection_index(**self.pi_arguments)
+        self.centring = centring
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
@@ -75,6 +75,7 @@ class capi(_BaseComposition, BaseEstimator):
 
     def fit(self, x, y, **kwargs):
 
+        most = self.projection_index(**self.pi_arguments)
         if self.scaling:
             order_kwargs = ["cov", "cos", "cok"]
         else:
@@ -93,11 +94,11 @@ class capi(_BaseComposition, BaseEstimator):
         k = 0
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
-            self.most.set_params(mode=order_kwargs[i - 2])
+            most.set_params(mode=order_kwargs[i - 2])
             l = min(i - 1, len(options))
             for j in options[np.arange(0, l)]:
                 fit_arguments["option"] = j
-                moments[i - 3 + j + k] = self.most.fit(x, **fit_arguments)
+                moments[i - 3 + j + k] = most.fit(x, **fit_arguments)
             if i == 3:
                 k += 1
         capi_index_ = np.dot(self.weights, moments)
-- 
2.43.0


From 52acf22a8e4946b892e97619789185431f827b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 09/41] fix: ppdire.fit does not overwrite n_components,
 center_data, scale_data and compression

---
 src/direpack/ppdire/ppdire.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..f9ee8ce 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
@@ -312,14 +311,17 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        scale_data = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print('All results produced are for whitened data')
         
         # Centring and scaling
-        if self.scale_data:
+        if scale_data:
             if self.center=='mean':
                 scale = 'std'
             elif ((self.center=='median')|(self.center=='l1median')):
@@ -329,7 +331,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Without scaling, convergence to optima is not given')
             
          # Data Compression for flat tables if required                
-        if ((p>n) and self.compression):
+        if ((p>n) and compression):
             V,S,U = np.linalg.svd(X.T,full_matrices=False)
             X = np.matmul(U.T,np.diag(S))
             n,p = X.shape
@@ -350,7 +352,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Initiate centring object and scale X data 
         centring = VersatileScaler(center=self.center,scale=scale,trimming=trimming)      
   
-        if self.center_data:
+        if center_data:
             Xs = centring.fit_transform(X)
             mX = centring.col_loc_
             sX = centring.col_sca_
@@ -384,7 +386,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
                 
-            if self.center_data:
+            if center_data:
                 ys = centring.fit_transform(y)
                 my = centring.col_loc_
                 sy = centring.col_sca_ 
@@ -698,7 +700,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
             bi = B[:,h-1]
-            if self.center_data:
+            if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
-- 
2.43.0


From 66f9f7ab22a012a85fd55b65bbb5291f3662632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 10/41] fix: ppdire.fit does not write into the
 optimizer_options dictionary of the caller

---
 src/direpack/ppdire/ppdire.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index f9ee8ce..630fd5d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -427,8 +427,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            optimizer_options = {'ndir': 1000, **self.optimizer_options}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -437,7 +436,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -452,14 +451,14 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
+            opt_args['ndir'] = optimizer_options['ndir'],
             opt_args['maxiter'] = self.optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
@@ -468,7 +467,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
-- 
2.43.0


From 2b2aa90a2520ebad8bc8184640b0da69c53199e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 11/41] fix: ppdire models fitted without centring can
 transform data

---
 src/direpack/ppdire/ppdire.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 630fd5d..6ef9b8a 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -358,8 +358,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
@@ -704,9 +704,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 mX = centring.col_loc_
                 sX = centring.col_sca_
             else:
-                Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                Xs = convert_X_input(X0)
+                mX = np.zeros(Xs.shape[1])
+                sX = np.ones(Xs.shape[1])
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From f62b99f1fa3062c7be55bb8907effb611038ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 12/41] fix: ppdire with compression reports one intercept and
 fitted values of the shape of y

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 6ef9b8a..68713b0 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -698,7 +698,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,[h-1]]
             if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
-- 
2.43.0


From 528f1a64bb25fbfe0f769a783114408561caf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 13/41] fix: a response given as a data frame is not transposed

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..20e3d41 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From 1b59721db57c5e035be3302349c990a4eae39353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 14/41] fix: ppdire robust and quantile regression work when y
 is passed by position

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 68713b0..7e358d6 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -250,34 +250,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             flag = 'two-block'
             y = kwargs.get('y')
                             
-            if 'quantile' not in kwargs:
-                quantile = .5
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From 6c86ba2aac698f7ad578990961275f4564a96db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 15/41] fix: a failing ppdire refit cannot leave new
 coefficients next to old projections

---
 src/direpack/ppdire/ppdire.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7e358d6..7791d01 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -708,6 +708,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 mX = np.zeros(Xs.shape[1])
                 sX = np.ones(Xs.shape[1])
         
+        if mixing:
+            mixing_matrix = np.linalg.pinv(W)
+
         bi = bi.astype("float64")
         if flag != 'one-block':            
             # Calculate scaled and unscaled intercepts
@@ -752,7 +755,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
 
         
         if mixing:
-            setattr(self,"mixing_",np.linalg.pinv(W))
+            setattr(self,"mixing_",mixing_matrix)
         
         
         setattr(self,"x_loc_",mX)
-- 
2.43.0


From e5ba18f8fbb1fd997d078e7d49d611ad7ff34ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:05 +0000
Subject: [PATCH 16/41] fix: refitting ppdire removes results of an earlier fit
 which the new fit does not provide

---
 src/direpack/ppdire/ppdire.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7791d01..4fe75c6 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -712,7 +712,11 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             mixing_matrix = np.linalg.pinv(W)
 
         bi = bi.astype("float64")
-        if flag != 'one-block':            
+        stale = ["whitening_","mixing_","scaling_object_"]
+        if flag == 'one-block':
+            stale += ["coef_","intercept_","coef_scaled_","intercept_scaled_",
+                      "residuals_","fitted_","y_loadings_","y_loc_","y_sca_"]
+        else:
             # Calculate scaled and unscaled intercepts
             if dimensions:
                 X = convert_X_input(X0)
@@ -742,6 +746,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             setattr(self,"y_loc_",my)
             setattr(self,"y_sca_",sy)
                 
+        # Results of an earlier fit that this fit does not provide
+        for attr in stale:
+            if hasattr(self,attr):
+                delattr(self,attr)
         setattr(self,"x_weights_",W)
         setattr(self,"x_loadings_",P)
         setattr(self,"x_rotations_",R)
-- 
2.43.0


From 69cbb5bcabfab39775ad5573b45657b8c90a3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 17/41] fix: sudire.fit does not store data dependent optimizer
 start, constraints and arguments in the settings

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..d14d7d5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -430,7 +430,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         else:  # SDR obtained through optimization of some function
 
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            optimizer_start = self.optimizer_start
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.center_data, self.scale_data
                 )
@@ -453,13 +454,14 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            optimizer_constraints = self.optimizer_constraints
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -479,12 +481,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            optimizer_arguments = self.optimizer_arguments
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -498,9 +501,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -514,12 +517,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -531,12 +534,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -548,12 +551,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From 987f549da773c9b8fd091db28338826b6d574eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 18/41] fix: sudire.fit does not overwrite the centring,
 scaling and compression settings when whitening

---
 src/direpack/sudire/sudire.py | 65 ++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index d14d7d5..bcdebbf 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -263,10 +263,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        scale_data = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
@@ -274,7 +277,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
-        if (p > n) and self.compression:
+        if (p > n) and compression:
             V, S, U = np.linalg.svd(X.T, full_matrices=False)
             X = np.matmul(U.T, np.diag(S))
             n, p = X.shape
@@ -297,7 +300,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
             # Centring and scaling
             # centering :
-        if self.center_data:
+        if center_data:
             if self.center != "mean":
                 centring = VersatileScaler(
                     center=self.center, scale="None", trimming=self.trimming
@@ -313,7 +316,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = X0
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
-        if self.scale_data:
+        if scale_data:
             if self.center == "mean":
                 scale = "std"
                 N2 = inv(sqrtm(varmatx))
@@ -362,7 +365,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-            if self.center_data:
+            if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
                 sy = np.sqrt(np.var(y, axis=0))
@@ -380,10 +383,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -394,10 +397,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -408,22 +411,22 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -433,23 +436,23 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             optimizer_start = self.optimizer_start
             if optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     sir_start = np.matmul(N2, sir_start)
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, y, 6, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     DR_start = np.matmul(N2, DR_start)
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
@@ -480,7 +483,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                                 "args": (Xs, self.n_components, i, j),
                             }
                         )
-                if self.scale_data:
+                if scale_data:
                     optimizer_constraints = tuple(const_z)
                 else:
                     optimizer_constraints = tuple(const_x)
@@ -506,7 +509,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
-            if self.scale_data:
+            if scale_data:
                 dcov_res = np.matmul(
                     N2, np.reshape(res.x, (-1, self.n_components), order="F")
                 )
@@ -525,7 +528,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
                     )
@@ -542,7 +545,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                     )
@@ -559,7 +562,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
                     )
-- 
2.43.0


From 32e960977ce324bfbe6f46924e226d5caeb9082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 19/41] fix: sudire works with copy=False

---
 src/direpack/sudire/sudire.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index bcdebbf..f3b9a5a 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -389,7 +389,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "save":
             P = SAVE(
                 Xs,
@@ -403,7 +403,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "dr":
             P = DR(
                 Xs,
@@ -417,19 +417,19 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "phd":
             P = PHD(Xs, ys, self.n_components, center_data, scale_data)
             if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "iht":
             P = IHT(Xs, ys, self.n_components, center_data, scale_data)
             if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         else:  # SDR obtained through optimization of some function
 
             ## choose starting value for DCOV-SDR
@@ -518,7 +518,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.sudiremeth == "dcov-sdr":
                 P = dcov_res
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             elif self.sudiremeth == "bcov-sdr":
                 optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
@@ -535,7 +535,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             elif self.sudiremeth == "mdd-sdr":
                 optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
@@ -552,7 +552,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             else:  ## user defined function
                 optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
@@ -569,7 +569,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
         # perform OLS regression
         T_reg = sm.add_constant(T)  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
-- 
2.43.0


From 45fa7a9559c7afe284acbd66dd8363392072907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 20/41] fix: sudire can predict single cases and batches of
 identical cases

---
 src/direpack/sudire/sudire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f3b9a5a..a0400a6 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -571,7 +571,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
+        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
@@ -650,7 +650,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From 8635bd72ba491e579721b4093f0de4852d14d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 21/41] fix: sudire without centring accepts data frames and
 any centring method

---
 src/direpack/sudire/sudire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index a0400a6..90715e9 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -313,9 +313,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 mX = trim_mean(X, self.trimming, axis=0)
                 sX = np.sqrt(np.diag(varmatx))
         else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
+            Xs = X
+            mX = np.zeros(p)
+            sX = np.ones(p)
+            centring = None
         if scale_data:
             if self.center == "mean":
                 scale = "std"
-- 
2.43.0


From b00ce40483ee8ffd2d2050578ba04c4b3d49846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 22/41] fix: the bootstrap of estimate_structural_dim resamples
 cases of X and y together, per dimension

---
 src/direpack/sudire/sudire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 90715e9..61b327c 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -800,9 +800,9 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     y = convert_y_input(y)
     n, p = Xn.shape
 
-    diff_b = []
     mean_diff = []
     for k in range(1, p + 1):
+        diff_b = []
         print("possible dim", k)
         sdr = sudire(
             sudiremeth,
@@ -826,7 +826,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y[idx])
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From 8fbf2ab4872ecb96aaa490b74d57f904164efcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:58 +0000
Subject: [PATCH 23/41] fix: refitting sudire removes optional results of an
 earlier fit which the new fit does not provide

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 61b327c..6b48ef7 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -578,6 +578,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Re-adjust estimates to original dimensions if data have been compressed
         if dimensions:
             P = np.matmul(V[:, 0:p], P)
+        for attr in ("whitening_", "scaling_object_"):  # of an earlier fit
+            if hasattr(self, attr):
+                delattr(self, attr)
         setattr(self, "x_loadings_", P)
         setattr(self, "x_scores_", T)
         setattr(self, "proj_mat_", projMat)
-- 
2.43.0


From 58c222c1e1633294ee059d5943dcffe0567457c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 24/41] fix: minimize_ipopt leaves the options dictionary of
 the caller unchanged

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..914d690 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From c987dd353de38d9d5fc5e1bb60d7a449ae79b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 25/41] fix: the ipopt problem wrapper keeps its own copy of
 the last evaluated point

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index 914d690..cb887d2 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -87,7 +87,7 @@ class IpoptProblemWrapper(object):
 
     def evaluate_fun_with_grad(self, x):
         if self.last_x is None or not np.all(self.last_x == x):
-            self.last_x = x
+            self.last_x = np.array(x)
             self.nfev += 1
             self.last_value = self.fun(x, *self.args, **self.kwargs)
         return self.last_value
-- 
2.43.0


From 2128d52b4d5d34e92133e18113bd016e594c0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 26/41] fix: values cached by FunctionWithApproxJacobian are
 not reused for other extra arguments

---
 src/direpack/ipopt_temp/jacobian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/direpack/ipopt_temp/jacobian.py b/src/direpack/ipopt_temp/jacobian.py
index 9d54307..7381a19 100644
--- a/src/direpack/ipopt_temp/jacobian.py
+++ b/src/direpack/ipopt_temp/jacobian.py
@@ -12,9 +12,16 @@ class FunctionWithApproxJacobian(object):
         self._func = func
         self.epsilon = epsilon
         self.value_cache = {}
+        self._cache_args = ()
         self.verbose = verbose
 
     def __call__(self, x, *args, **kwargs):
+        call_args = args + tuple(kwargs.items())
+        if len(call_args) != len(self._cache_args) or any(
+                a is not b for a, b in zip(call_args, self._cache_args)):
+            # cached values belong to other extra arguments
+            self.value_cache = {}
+            self._cache_args = call_args
         key = tuple(x)
         if not key in self.value_cache:
             self.log('.')
-- 
2.43.0


From 81f7649bc4fde467c0254aabc14a914108a45f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 27/41] fix: a failing refit of a scaler leaves its location
 and scale in step

---
 src/direpack/preprocessing/robcent.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..a904742 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -133,16 +133,15 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             m = center(X, trimming=self.trimming)
 
-        # Keeping col_loc_ for older version compatibility
-        setattr(self, "col_loc_", m)
-        # sklearn standard
-        setattr(self, "center_", m)
-
         if self.scale == "None":
             s = np.repeat(1, p)
         else:
             s = scale(X, trimming=self.trimming)
 
+        # Keeping col_loc_ for older version compatibility
+        setattr(self, "col_loc_", m)
+        # sklearn standard
+        setattr(self, "center_", m)
         # Keeping col_sca_ for older version compatibility
         setattr(self, "col_sca_", s)
         # sklearn standard
@@ -274,16 +273,15 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             m = center(X, trimming=self.trimming)
 
-        # Keeping col_loc_ for older version compatibility
-        setattr(self, "col_loc_", m)
-        # sklearn standard
-        setattr(self, "center_", m)
-
         if self.scale == "None":
             s = np.repeat(1, p)
         else:
             s = scale(X, trimming=self.trimming)
 
+        # Keeping col_loc_ for older version compatibility
+        setattr(self, "col_loc_", m)
+        # sklearn standard
+        setattr(self, "center_", m)
         # Keeping col_sca_ for older version compatibility
         setattr(self, "col_sca_", s)
         # sklearn standard
-- 
2.43.0


From 9dc29036443d86c397ae65a2782a267c02043e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 28/41] fix: scalers and spatial sign pre-processing can be
 used in scikit-learn pipelines

---
 src/direpack/preprocessing/gsspp.py   |  5 +++--
 src/direpack/preprocessing/robcent.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..2919c22 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -49,7 +49,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         self.center = center
         self.fun = fun 
         
-    def fit(self,X): 
+    def fit(self,X,y=None): 
         
         """ 
         Calculate and store generalized spatial signs
@@ -67,6 +67,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'gss_',gss_)
         setattr(self,'Xm_',Xm)
         setattr(self,'centring_',vs)
+        return(self)
         
     def transform(self,X):
         
@@ -79,7 +80,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-    def fit_transform(self,X): 
+    def fit_transform(self,X,y=None): 
 
         self.fit(X)
         self.transform(X)
diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index a904742..9847bcf 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -101,7 +101,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = scale
         self.trimming = trimming
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -147,6 +147,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Center and/or scale training data to pre-estimated location and scale
@@ -172,7 +174,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xns
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data and scale these data
         """
@@ -241,7 +243,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = "mad"
         self.trimming = 0
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -287,6 +289,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Project data points to their wrapped counterparts
@@ -312,7 +316,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xnw
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data wrap these data
         """
-- 
2.43.0


From 918031fced9b648ad8fb7ab3d1eef0cce34f3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 29/41] fix: wrapping new data uses the location and scale
 estimated when fitting

---
 src/direpack/preprocessing/_preproc_utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..3338bb7 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,10 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From 090c9060b388c9261a48c3968e9554b1618add31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 30/41] fix: scalers and wrappers treat a single new case as a
 row

---
 src/direpack/preprocessing/robcent.py | 11 ++++++-----
 src/direpack/utils/utils.py           | 11 +++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 9847bcf..8eebb84 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -56,6 +56,7 @@ from ..utils.utils import (
     convert_X_input,
     convert_y_input,
     _check_input,
+    _check_new_input,
 )
 from ._preproc_utilities import *
 from ._preproc_utilities import _check_trimming, wrap_univ
@@ -154,8 +155,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, len(self.center_))
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -168,7 +169,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, len(self.col_loc_))
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -191,7 +192,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_new_input(Xs, len(self.center_))
         else:
             Xs = self.datas_
 
@@ -296,8 +297,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, len(self.center_))
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -310,7 +311,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, len(self.col_loc_))
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 20e3d41..e16fcd2 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -80,6 +80,17 @@ def _check_input(X):
     return(X)
 
 
+def _check_new_input(X, p):
+    """
+    Data for a model estimated on p variables: a single case is one row
+    """
+
+    X = _check_input(X)
+    if p > 1 and X.shape == (p, 1):
+        X = X.T
+    return(X)
+
+
 def nandot(X, y):
 
     p, n = X.shape
-- 
2.43.0


From 862a7acc47c7fc35e20d2a2e9c79fbf9acd26fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:07 +0000
Subject: [PATCH 31/41] fix: plots no longer change the global matplotlib
 settings

---
 src/direpack/plot/ppdire_plot.py |  4 ++--
 src/direpack/plot/sprm_plot.py   | 10 +++++-----
 src/direpack/plot/sudire_plot.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..9ecea7a 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -58,8 +58,8 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_ppdire.y0
             if len(ytruec.shape) >1:
@@ -122,8 +122,8 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_ppdire.x_scores_)
             labelcr = label + ' Training'
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..e3f4740 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -84,8 +84,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sprm.y
             if len(ytruec.shape) >1:
@@ -159,8 +159,8 @@ class sprm_plot(sprm):
         """
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
             x_plot = columns[self.res_sprm.non_zero_scale_vars_]
@@ -211,8 +211,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sprm.x_scores_)
             labelcr = label[0] + ' Training' + ' Regular'
@@ -291,8 +291,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             if mode=='overall':
                 wc = self.res_sprm.caseweights_
@@ -373,8 +373,8 @@ class sprm_plot_cv(GridSearchCV,sprm):
             setattr(self,'cv_score_table_',cv_score_table_)
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         # Filter out rows with NaN values to avoid tricontour errors
         data = self.cv_score_table_.values
         valid_mask = np.isfinite(data[:,2])
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..f2affcd 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -58,8 +58,8 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sudire.y0
             if len(ytruec.shape) >1:
@@ -122,8 +122,8 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sudire.x_scores_)
             ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-- 
2.43.0


From fbd25baba9dd126b01c93dacbb9261567ddbf217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:37 +0000
Subject: [PATCH 32/41] fix: dicomo reports an unavailable estimator class
 instead of returning an earlier result

---
 src/direpack/dicomo/dicomo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d7550b3..c28a200 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -426,6 +426,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                         ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
+        else:
+            raise(MyException('Estimator class "' + str(self.est) + '" is not available'))
+                    
         if mode == 'corr': 
             como /= (np.sqrt(xmom)*np.sqrt(ymom))
             self.moment_=como
-- 
2.43.0


From 9ab1ae1df97019ab1a32b2a02ef36cb7c6559cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:48 +0000
Subject: [PATCH 33/41] fix: case weights for new data use the settings of the
 fitted sprm model

---
 src/direpack/sprm/sprm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index fc98486..e6d3108 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -461,6 +461,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "hampelry_", hampelry)
         setattr(self, "scaling_", scaling)
         setattr(self, "scalingt_", scalingt)
+        setattr(self, "fun_", self.fun)
         return self
         pass
 
@@ -525,20 +526,17 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
         Tn = self.transform(Xn)
         scaling = copy.deepcopy(self.scalingt_)
-        scalet = self.scale
-        if scalet == "None":
-            scaling.set_params(scale="mad")
         if isinstance(Tn, np.matrix):
             Tn = np.array(Tn)
         dtn = scaling.fit_transform(Tn)
         wtn = np.sqrt(np.array(np.sum(np.square(dtn), 1), dtype=np.float64))
         wtn = wtn / np.median(wtn)
         wtn = wtn.reshape(-1)
-        if self.fun == "Fair":
+        if self.fun_ == "Fair":
             wtn = Fair(wtn, self.probctx_)
-        if self.fun == "Huber":
+        if self.fun_ == "Huber":
             wtn = Huber(wtn, self.probctx_)
-        if self.fun == "Hampel":
+        if self.fun_ == "Hampel":
             wtn = Hampel(wtn, self.probctx_, self.hampelbx_, self.hampelrx_)
         return wtn
 
-- 
2.43.0


From 70ad55b201457e934eb4bf795420c58f687a386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:21 +0000
Subject: [PATCH 34/41] fix: ppdire can be tuned inside a scikit-learn pipeline

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 4fe75c6..7294c29 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -862,7 +862,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, 'get_params'):
+            if deep and hasattr(value, 'get_params') and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + '__' + k, val) for k, val in deep_items)
             out[key] = value
-- 
2.43.0


From 53a76d2d5fa90b02cbae6001ab7d3bf0b7826880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 35/41] fix: deep parameters of capi can be listed

---
 src/direpack/ppdire/capi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 09eab7b..4080f2d 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -154,7 +154,7 @@ class capi(_BaseComposition, BaseEstimator):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
-- 
2.43.0


From e0cca351ec74f34d4d778b78dd83ba3e79872adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:48 +0000
Subject: [PATCH 36/41] fix: back-transformation of scaled data treats constant
 variables as the scaling did

---
 src/direpack/preprocessing/robcent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 8eebb84..9312ee1 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -59,7 +59,7 @@ from ..utils.utils import (
     _check_new_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import _check_trimming, _handle_zeros_in_scale, wrap_univ
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -196,7 +196,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
 
 
 # For backwards compatibility
-- 
2.43.0


From 76516fdfdac58a35230db442eff6cf3a81162a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:03 +0000
Subject: [PATCH 37/41] fix: a failed evaluation is not remembered as the value
 at the next request

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index cb887d2..0201313 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -87,9 +87,9 @@ class IpoptProblemWrapper(object):
 
     def evaluate_fun_with_grad(self, x):
         if self.last_x is None or not np.all(self.last_x == x):
-            self.last_x = np.array(x)
             self.nfev += 1
             self.last_value = self.fun(x, *self.args, **self.kwargs)
+            self.last_x = np.array(x)
         return self.last_value
 
     def objective(self, x):
-- 
2.43.0


From 2a3bf9c24b6dc15eb5db23051772df2b51df2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:50 +0000
Subject: [PATCH 38/41] fix: constraints are counted at the start vector, also
 when a single number starts the optimization

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index 0201313..d9a0402 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -203,7 +203,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
                                   hessp=hessp, constraints=constraints)
     lb, ub = get_bounds(bounds)
 
-    cl, cu = get_constraint_bounds(constraints, x0)
+    cl, cu = get_constraint_bounds(constraints, _x0)
 
     options = {} if options is None else dict(options)
 
-- 
2.43.0


From fed19f647a989a2b5e30a4ecf4a17c0da38d8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:46 +0000
Subject: [PATCH 39/41] fix: keyword arguments reach the objective when its
 gradient is approximated

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index d9a0402..d6539f4 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -56,7 +56,8 @@ class IpoptProblemWrapper(object):
             raise NotImplementedError('Using hessian matrixes is not yet implemented!')
         if jac is None:
             #fun = FunctionWithApproxJacobian(fun, epsilon=eps, verbose=False)
-            jac = lambda x0, *args, **kwargs: approx_fprime(x0, fun, eps, *args, **kwargs)
+            jac = lambda x0, *args, **kwargs: approx_fprime(
+                x0, lambda x: fun(x, *args, **kwargs), eps)
         elif jac is True:
             self.fun_with_jac = fun
         elif not callable(jac):
-- 
2.43.0


From 8e942ec33bec4b9844e74822840241fbce26979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:28 +0000
Subject: [PATCH 40/41] fix: snipls reports R-weights for all components when
 no variable is retained

---
 src/direpack/sprm/snipls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index cd9ad71..8903a7f 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -245,7 +245,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         else:
             B = np.empty((p, 1))
             B.fill(0)
-            R = B
+            R = np.zeros((p, self.n_components))
             T = np.empty((n, self.n_components))
             T.fill(0)
         B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
-- 
2.43.0


From 200f51a7d70ffa682321574a9d1ef78212694566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:28 +0000
Subject: [PATCH 41/41] fix: scaleTau2 is not NaN for all columns when one
 column has zero median absolute deviation

---
 src/direpack/preprocessing/_preproc_utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 3338bb7..ad88583 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -254,15 +254,16 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
     medx = median(x)
     xc = abs(x - medx)
     sigma0 = median(xc)
+    divisor = _handle_zeros_in_scale(sigma0)
     if c1 > 0:
-        xc /= sigma0 * c1
+        xc /= divisor * c1
         w = 1 - np.square(xc)
         w = np.square((abs(w) + w) / 2)
         mu = summ(np.multiply(x, w)) / summ(w)
     else:
         mu = medx
     x -= mu
-    x /= sigma0
+    x /= divisor
     rho = np.square(x)
     rho[np.where(rho > c2**2)[0]] = c2**2
     if consistency:
-- 
2.43.0

