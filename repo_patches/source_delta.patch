From fd9d672425d65329f2b1250b6275eca1166f994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 01/41] fix: base_cl no longer appends the tail factor to the
 caller's Series

---
 trikit/estimators/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..5bb13b6 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,9 +103,11 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                # Align sel with development periods, by label if possible, otherwise
+                # by position, then append tail factor to a copy of sel.
+                if sel.index.isin(self.tri.devp.values[:-1]).all():
+                    sel = sel.reindex(self.tri.devp.values[:-1])
+                sel = pd.Series(np.append(sel.values, tail), index=self.tri.devp.values)
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
-- 
2.43.0


From f89a77863c77544cd1f4d978089dcd666e51e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 02/41] fix: medial average of no link ratios is NaN instead of
 an IndexError

---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..4413a34 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -550,7 +550,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From b2eb2a289195ee1a057f8850141f0d67e1406dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/41] fix: weighted averages honour link ratios excluded
 through a2aind

---
 trikit/triangle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 4413a34..0520c1b 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -815,6 +815,8 @@ class _BaseCumTriangle(_BaseTriangle):
                 if avgtype == 'weighted':
 
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
+                    # Bind reference to link ratios that have not been excluded.
+                    incl = self.a2aind[colstr].reindex(self.index) != 0
                     # Find first NaN value in t_ic_2.
                     first_nan_year = t_ic_2.index[t_ic_2.count():][0]
                     first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
@@ -826,8 +828,8 @@ class _BaseCumTriangle(_BaseTriangle):
                             (final_cell_indx - duration) >= 0 else 0
 
                     # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_2 = t_ic_2.where(incl)[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_1 = t_ic_1.where(incl)[first_cell_indx:final_cell_indx].sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
-- 
2.43.0


From 3cfabaab83ed6fcd7863f374e75e1c845a6b3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 04/41] fix: to_tbl, latest, to_cum, boot_cl and triangle plots
 work with custom column names

---
 trikit/estimators/bootstrap.py |  3 ++-
 trikit/triangle.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..3215b64 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).set_axis(
+            ["origin", "dev", "value"], axis=1).drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 0520c1b..6b4d521 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -210,9 +210,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -347,7 +347,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -432,7 +432,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -970,7 +970,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1054,7 +1054,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From d902b733a7285ad5e10a5a45f1bd67bf0ecd1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 05/41] fix: totri no longer depends on the order or splitting
 of tabular records

---
 trikit/triangle.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 6b4d521..9d37952 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -462,9 +462,8 @@ class _BaseCumTriangle(_BaseTriangle):
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        data = data.copy()
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
@@ -1378,13 +1377,14 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
     elif data_shape == "tabular":
 
+        # Combine records of the same cell, ordered by origin and development period.
+        _BaseTriangle._validate(data, origin=origin, dev=dev, value=value)
+        df = data[~pd.isnull(data[value])].reset_index(drop=True)
+        df = df.groupby([origin, dev], as_index=False)[value].sum()
+
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
-        else:
-            df = data
+            incr = df.groupby([origin])[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
-- 
2.43.0


From ed25b3cfcb41a753a66157a7383b64c2d6ef800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 06/41] fix: triangle-shaped input keeps all increments around
 missing cells and accepts any index name

---
 trikit/triangle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9d37952..d2d23f7 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1358,22 +1358,25 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
-            incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = data.rename_axis("origin").reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
-            incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-            df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
+            cumtri = data.rename_axis("origin").reset_index(drop=False)
+            df = pd.melt(cumtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
+            # Increments are computed between successive observed cells.
+            df = df.sort_values(by=["origin", "dev"])
+            df["value"] = df.groupby(["origin"])["value"].diff(periods=1).fillna(df["value"])
+
         else:
             raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
 
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
+        origin, dev, value = "origin", "dev", "value"
 
     elif data_shape == "tabular":
 
-- 
2.43.0


From 66644a793c8da31730c377966bc894c1e0a3f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 07/41] fix: IncrTriangle.to_cum carries missing cells forward
 as totri does

---
 trikit/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index d2d23f7..cc669ca 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -432,7 +432,9 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
+        return(totri(
+            self.to_tbl(), tri_type="cum", origin=self.origin, dev=self.dev, value=self.value
+            ))
 
 
 
-- 
2.43.0


From 545a0663795790a4af980575e2be579dd1c4bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 08/41] fix: bootstrap handles triangles whose first
 development period is not labelled 1

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3215b64..7147ddf 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -598,7 +598,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From db3224043c4362b7d98e60b49174ad3133cddbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 09/41] fix: bootstrap resamples cells with negative fitted
 increments instead of dropping them

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 7147ddf..981d567 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -488,7 +488,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From c7415637b80d27add2b9b06a1a7055b8ce867aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 10/41] fix: residuals_detail works with SciPy versions
 returning a scalar mode

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 981d567..7f0576a 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -944,7 +944,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = np.ravel(stats.mode(unscaled, axis=0, nan_policy="omit").mode)[0]
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -957,7 +957,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = np.ravel(stats.mode(adjusted, axis=0, nan_policy="omit").mode)[0]
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From 64079cb0ce43ccc3d7b48147aa11109572839b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 11/41] fix: Mack plot draws the estimated reserve
 distributions instead of raising KeyError

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..0107c79 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -904,7 +904,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
@@ -916,7 +916,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             grid.set_axis_labels("", "")
             grid.map(plt.plot, "x", "y", color=dist_color, linewidth=1.25)
 
-            for origin, ax_ii in zip(self.rvs.index[1:], grid.axes):
+            for origin, ax_ii in zip(grid.col_names, grid.axes):
                 # Determine reserve estimate at mean and specified quantiles.
                 rv_ii = self.rvs[origin]
                 with np.errstate(invalid="ignore"):
-- 
2.43.0


From 4ce85fa2f6cef3d7a5fc4ea81dab37b765c3c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 12/41] fix: Mack diagnostics completes and standardizes
 residuals by their standard deviation

---
 trikit/estimators/mack.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0107c79..fa18478 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -569,7 +569,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -591,7 +591,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
@@ -1016,7 +1016,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1035,8 +1035,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From 77bb10a3602d88dfadc9a688fc7cfa9cc5b86453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 13/41] fix: bootstrap plot no longer raises TypeError

---
 trikit/estimators/base.py      | 8 +++++++-
 trikit/estimators/bootstrap.py | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 5bb13b6..496c13b 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -659,7 +659,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
 
 
 
-    def _qtls_formatter(self, q):
+    def _qtls_formatter(self, q, two_sided=False):
         """
         Return array_like of actual and formatted quantiles.
 
@@ -669,12 +669,18 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             Quantile or sequence of quantiles to compute, which must be
             between 0 and 1 inclusive.
 
+        two_sided: bool
+            Whether to return the bounds of the central interval(s) given by
+            ``q``, [(1 - q) / 2, (1 + q) / 2]. Defaults to False.
+
         Returns
         -------
         tuple of list
         """
         qtls = np.asarray([q] if isinstance(q, (float, int)) else q)
         if np.all(np.logical_and(qtls <= 1, qtls >= 0)):
+            if two_sided:
+                qtls = np.append((1 - qtls) / 2., (1 + qtls) / 2.)
             qtls = np.sort(np.unique(qtls))
         else:
             raise ValueError("Values for quantiles must fall between [0, 1].")
diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 7f0576a..09c23cd 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1070,11 +1070,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
             dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+                "quantile", q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
             dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+                "quantile", q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
-- 
2.43.0


From 70c4e2e9b157f2fe2f753bed68fe4792f5a8c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 14/41] fix: plots no longer fail when an origin's largest loss
 is a power of ten, below one or above 1e10

---
 trikit/estimators/base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 496c13b..91c0929 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -348,14 +348,10 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
-        x_div = ref_divs[div_index]
+        x_div = np.power(10., np.floor(np.log10(x))) if x > 0 else 1.
 
         # Find upper limit for y-axis given origin_max_val.
-        yuls_seq = x_div * np.arange(1, 11)
-        x_yuls = yuls_seq - x
-        yul = yuls_seq[np.where(x_yuls > 0)[0].min()]
+        yul = x_div * (np.floor(x / x_div) + 1) if x > 0 else x_div
         y_ticks = np.linspace(0, yul, num=5)
         y_ticklabels = np.asarray(["{:,.0f}".format(ii) for ii in y_ticks])
         return(y_ticks, y_ticklabels)
-- 
2.43.0


From 8168c30bd97595bc9a5cf46e5a692ca3fa73841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 15/41] fix: chain ladder plot draws actual and forecast losses

---
 trikit/estimators/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 91c0929..5c3f88e 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -523,18 +523,22 @@ class BaseChainLadderResult:
                 )
 
             if hue_kws is not None:
-                # Determine whether the length of each element of hue_kws is 4.
-                if all(len(hue_kws[i]) == 4 for i in hue_kws):
+                # Determine whether the length of each element of hue_kws is 2.
+                if all(len(hue_kws[i]) == 2 for i in hue_kws):
                     huekwargs.update(hue_kws)
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
 
+            huekwargs.update({kk: [vv, vv] for kk, vv in kwargs.items()})
+
             grid = sns.FacetGrid(
                 data, col="origin", hue="rectype", hue_kws=huekwargs,
                 col_wrap=col_wrap, margin_titles=False, despine=True, sharex=False,
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
+
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From 87e18bb94cefe8edbba7870fc08568cc1f63805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 16/41] fix: 11th, 12th and 13th percentile labels

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 5c3f88e..06ce5cb 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -689,7 +689,8 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii in ("11", "12", "13") else ii + self.dsuffix[ii[-1]]
+                for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From 34e996596e44cc3fc06e860eb0d322c40ecfaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 17/41] fix: chain ladder and Mack accept unevenly spaced
 origins and development periods

---
 trikit/estimators/base.py | 5 ++---
 trikit/estimators/mack.py | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 06ce5cb..a036709 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -172,10 +172,9 @@ class BaseChainLadder:
         -------
         pd.Series
         """
-        # Determine index for tail factor.
+        # Tail factor is associated with the last development period.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.iloc[-1]] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index fa18478..80a4691 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -267,8 +267,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.iloc[-1]] = tail
         return(ldfs)
 
 
@@ -747,8 +746,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
+
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From 06f0d4ae5c70eebf2ff8cc2e007c44533a56687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 18/41] fix: chain ladder ultimates use each origin's own
 maturity

---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index a036709..e940875 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -220,7 +220,7 @@ class BaseChainLadder:
         pd.Series
         """
         ultimates = pd.Series(
-            data=self.tri.latest_by_origin.values * cldfs.values[::-1],
+            data=self.tri.latest_by_origin.values * cldfs.loc[self.tri.maturity.values].values,
             index=self.tri.index, name="ultimate"
             )
         return(ultimates.astype(float).sort_index())
-- 
2.43.0


From 166d1d7dcf02d872579621021862da08a6eae01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 19/41] fix: Mack standard errors for alpha other than 1

---
 trikit/estimators/mack.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 80a4691..92f8d15 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -121,7 +121,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -164,15 +164,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
@@ -333,7 +330,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -350,6 +347,11 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            * 0: Straight average of observed individual link ratios.
+            * 1: Historical Chain Ladder age-to-age factors.
+            * 2: Regression of :math:`C_{k+1}` on :math:`C_{k}` with 0 intercept.
+
         Returns
         -------
         pd.DataFrame
@@ -375,10 +377,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 83969c27ab919a5f2f574c3e25ac327781605696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 20/41] fix: Mack lognormal quantiles of reserves below one

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 92f8d15..0b4105e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -182,9 +182,9 @@ class MackChainLadder(BaseRangeEstimator):
             rv_list = [norm(loc=ii, scale=jj) for ii, jj in zip(mean_params, std_params)]
 
         elif dist == "lognorm":
-            with np.errstate(divide="ignore"):
+            with np.errstate(divide="ignore", invalid="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From 29e80217bf2effd7a53ac3b792c9a294c42599a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 21/41] fix: devp_corr_test interval is deterministic and
 leaves NumPy's random state alone

---
 trikit/estimators/mack.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0b4105e..4bc4076 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -6,7 +6,7 @@ import numpy as np
 import pandas as pd
 from scipy import special
 from scipy.stats import norm, lognorm
-from scipy.optimize import root
+
 from .base import BaseRangeEstimator, BaseRangeEstimatorResult
 
 
@@ -693,11 +693,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         tuple
         """
-        def fnorm(x, p):
-            return(norm.cdf(x) - norm.cdf(-x) - p)
-
-        f = functools.partial(fnorm, p=p)
-        z = root(f, np.random.rand()).x.item()
+        z = norm.ppf((1 + p) / 2)
         s = np.sqrt(self._devp_corr_test_var())
         return((-z / s, z / s), self._spearman_corr_total())
 
-- 
2.43.0


From a365557b5d6b912720a362aa50b77e31298eea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 22/41] fix: bootstrap accepts NumPy integer seeds

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 09c23cd..5f735ba 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -464,7 +464,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
@@ -654,7 +654,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         """
         # Initialize pseudo random number generator.
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
-- 
2.43.0


From 96b53d3b1dd2c3af8a17573a4458ee1da2e822a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 23/41] fix: bootstrap without random_state uses the
 RandomState instance of np.random as documented

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 5f735ba..aeaca52 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -469,7 +469,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random.mtrand._rand
 
         sampling_dist = sampling_dist.flatten()
         fti = fitted_tri_incr.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -659,7 +659,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random.mtrand._rand
 
         # Parameterize distribution for the incorporation of process variance.
         if procdist.strip().lower() == "gamma":
-- 
2.43.0


From 6ae01f0e9b3cdc09d44c62e7cf85eb7a084422af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 24/41] fix: hist leaves reserve_dist unchanged

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index aeaca52..c578e5a 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1328,7 +1328,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy()
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From a8bf6b21d209ef8809a7c2509e26fb6dfcd66d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 25/41] fix: faceted triangle plot no longer parses tick label
 text

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index cc669ca..93435af 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1082,9 +1082,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [jj for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From c5587f1fdea5d08d963ba2ec1a9b2e921e00d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 26/41] fix: a2a_assignment no longer treats factors within
 1e-5 of the median as the median

---
 trikit/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 93435af..7ce0cab 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -768,7 +768,9 @@ class _BaseCumTriangle(_BaseTriangle):
                 for r_indx, a2a in enumerate(self.a2a[devp]):
                     origin = self.a2a.index[r_indx]
                     if not np.isnan(a2a):
-                        if np.allclose(a2a, devp_median):
+                        # Compare up to rounding only: late development factors are
+                        # often within 1e-5 of one another.
+                        if np.isclose(a2a, devp_median, rtol=1e-12, atol=0):
                             self._a2a_assignment.at[origin, devp] = 0
                         elif a2a > devp_median:
                             self._a2a_assignment.at[origin, devp] = 1
-- 
2.43.0


From cdf40ef31e2ccfad24eecae507433d02427b0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 27/41] fix: Mack standard errors of triangles fully developed
 before their last periods

---
 trikit/estimators/mack.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 4bc4076..bfa4840 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -322,11 +322,13 @@ class MackChainLadder(BaseRangeEstimator):
             devpvar[jj] = \
                 (w[jj] * (C[jj]**alpha) * (F[jj] - ldfs[jj])**2).sum() / (n - indx - 2)
 
-        # Calculate development period variance for period n-1.
-        devpvar.iloc[-1] = np.min((
-            devpvar.iloc[-2]**2 / devpvar.iloc[-3],
-            np.min([devpvar.iloc[-2], devpvar.iloc[-3]])
-            ))
+        # Calculate development period variance for period n-1. When both preceding
+        # variances are 0 (no further development), so is the extrapolated one.
+        devpvar.iloc[-1] = np.min([devpvar.iloc[-2], devpvar.iloc[-3]])
+        if devpvar.iloc[-3] > 0:
+            devpvar.iloc[-1] = np.min((
+                devpvar.iloc[-2]**2 / devpvar.iloc[-3], devpvar.iloc[-1]
+                ))
         return(devpvar)
 
 
-- 
2.43.0


From ab7d5f0e8b02a69f87d2c71052796d0793c75202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 28/41] fix: averages of triangles with a development period
 observed for every origin

---
 trikit/triangle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 7ce0cab..a5ef047 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -820,10 +820,8 @@ class _BaseCumTriangle(_BaseTriangle):
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
                     # Bind reference to link ratios that have not been excluded.
                     incl = self.a2aind[colstr].reindex(self.index) != 0
-                    # Find first NaN value in t_ic_2.
-                    first_nan_year = t_ic_2.index[t_ic_2.count():][0]
-                    first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
-                    final_cell_indx = first_nan_indx
+                    # Find position of first NaN value in t_ic_2, if any.
+                    final_cell_indx = t_ic_2.count()
                     if duration == 0:
                         first_cell_indx = 0
                     else:
-- 
2.43.0


From 3855a912d6c5d4e52e1001b570c6ec27fe8da292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 29/41] fix: bootstrap of triangles with several fully
 developed origins

---
 trikit/estimators/bootstrap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index c578e5a..c767c04 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -180,7 +180,9 @@ class BootstrapChainLadder(BaseRangeEstimator):
 
         dfreserves = self._bs_reserves(dfprocerror=dfprocerror)
         ultimates = dfreserves.groupby(["origin"])["ultimate"].mean()
-        ultimates[latest.index.min()] = latest[latest.index.min()]
+        # Fully developed origins are not subject to resampling.
+        developed = self.tri.maturity == self.tri.columns[-1]
+        ultimates[developed] = latest[developed]
         reserves = pd.Series(ultimates - latest, name="reserve")
         std_error = self._bs_std_error(dfreserves)
         cv = pd.Series(std_error / reserves, name="cv")
@@ -529,13 +531,12 @@ class BootstrapChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        keepcols = ["sim", "origin", "dev", "samp_cum", "last_origin"]
-        new_col_names = {"index": "dev", "origin": "last_origin", "row_offset": "origin_offset"}
-        dflvi = self.tri.clvi.reset_index(drop=False).rename(new_col_names, axis=1)
-        dfinit = dfsamples.merge(dflvi, how="left", on=["dev"])
-        dfinit = dfinit[keepcols].sort_values(by=["sim", "dev", "origin"])
+        keepcols = ["sim", "origin", "dev", "samp_cum"]
+        dfinit = dfsamples[keepcols].sort_values(by=["sim", "dev", "origin"])
         df = dfinit[~np.isnan(dfinit["samp_cum"])].reset_index(drop=True)
-        df["_aggdev2"] = np.where(df["origin"].values == df["last_origin"].values, 0, df["samp_cum"].values)
+        # Only origins observed at the next development period enter the denominator.
+        l_act_dev = df["origin"].map(self.tri.rlvi["dev"]).values
+        df["_aggdev2"] = np.where(df["dev"].values == l_act_dev, 0, df["samp_cum"].values)
         df2 = df.groupby(["sim", "dev"], as_index=False)[["samp_cum", "_aggdev2"]].sum().rename(
             {"samp_cum": "_aggdev1"}, axis=1)
         df2["_aggdev2"] = df2["_aggdev2"].shift(periods=1)
@@ -570,12 +571,12 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         dfcombined = self._get_dfcombined(dfsamples, dfldfs)
-        min_origin_year = dfcombined["origin"].min()
         dfcombined["_l_init_indx"] = np.where(
             dfcombined["dev"].values >= dfcombined["l_act_dev"].values,
             dfcombined.index.values, -1
             )
-        dfacts = dfcombined[(dfcombined["origin"].values == min_origin_year) |
+        # Origins observed at the last development period have no forecasts.
+        dfacts = dfcombined[(dfcombined["l_act_dev"].values == dfcombined["dev"].max()) |
                             (dfcombined["_l_init_indx"].values == -1)]
 
         dffcst = dfcombined[~dfcombined.index.isin(dfacts.index)].sort_values(
-- 
2.43.0


From 7a9030bb514cd0d84c5b1cf7c943784b5fbeff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 30/41] fix: diagonal of triangles with unequal numbers of
 origins and development periods

---
 trikit/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index a5ef047..1d400bf 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -322,9 +322,10 @@ class _BaseTriangle(pd.DataFrame):
         df = self.latest.copy()
         df = df.reset_index(drop=False).rename(
             {"index": "origin_indx"}, axis=1)[["origin_indx"]]
-        df["dev_indx"] = df["origin_indx"].values[::-1]
-        df["dev_indx"] = df["dev_indx"] + offset
-        df = df[df.dev_indx >= 0].reset_index(drop=True)
+        # Cells of a given diagonal share the sum of origin and development offsets.
+        latest_indx = (np.arange(self.shape[0]) + self.rlvi["col_offset"].values).max()
+        df["dev_indx"] = latest_indx - df["origin_indx"] + offset
+        df = df[(df.dev_indx >= 0) & (df.dev_indx < self.shape[1])].reset_index(drop=True)
         df = df.assign(
             origin=df["origin_indx"].map(lambda v: self.origins[v]),
             dev=df["dev_indx"].map(lambda v: self.devp[v]),
-- 
2.43.0


From 672935af37e61b76049d162bd34cbb7f908aa7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 31/41] fix: Mack standard errors of triangles with unequal
 numbers of origins and development periods

---
 trikit/estimators/mack.py | 69 ++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index bfa4840..ed52835 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -133,7 +133,8 @@ class MackChainLadder(BaseRangeEstimator):
             )
         std_error = pd.Series(np.sqrt(mse), name="std_error")
         cv = pd.Series(std_error / reserves, name="cv")
-        trisqrd = self._trisqrd(ldfs=ldfs)
+        trisqrd = self._trisqrd(ldfs=ldfs).drop("ultimate", axis=1)
+        trisqrd.columns = self.tri.columns
 
         dfmatur = maturity.to_frame().reset_index(drop=False).rename({"index": "origin"}, axis=1)
         dfcldfs = cldfs.to_frame().reset_index(drop=False).rename({"index": "maturity"}, axis=1)
@@ -153,27 +154,17 @@ class MackChainLadder(BaseRangeEstimator):
         dfsumm.loc["total", "maturity"] = ""
         dfsumm.loc["total", ["cldf", "emergence"]] = np.NaN
 
-        # Create latest and trisqrd reference using 1-based indexing.
-        latest = self.tri.latest.sort_index()
-        latest.origin = range(1, latest.index.size + 1)
-        latest.dev = range(latest.index.size, 0, -1)
-        trisqrd = self._trisqrd(ldfs).drop("ultimate", axis=1)
-        trisqrd.index = range(1, trisqrd.index.size + 1)
-        trisqrd.columns = range(1, trisqrd.columns.size + 1)
-
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
         quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
-        for indx, ii in enumerate(mse_total.index[1:], start=2):
+        for ii in mse_total.index[1:]:
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
+            rh_sum = sum(quotient[jj] for jj in range(self.tri.rlvi.at[ii, "col_offset"] + 1, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
-        # Reset trisqrd columns and index back to original values.
-        trisqrd.columns, trisqrd.index = self.tri.columns, self.tri.index
         dfsumm.loc["total", "std_error"] = np.sqrt(mse_total.dropna().sum())
         dfsumm.loc["total", "cv"] = dfsumm.loc["total", "std_error"] / dfsumm.loc["total", "reserve"]
 
@@ -200,7 +191,9 @@ class MackChainLadder(BaseRangeEstimator):
                 for origin in rvs.index:
                     dfsumm.loc[origin, jj] = rvs[origin].ppf(ii)
 
-        dfsumm.loc[self.tri.index.min(), ["cv"] + qtlhdrs] = np.NaN
+        # Fully developed origins have no reserve distribution.
+        developed = self.tri.maturity.index[self.tri.maturity == self.tri.columns[-1]]
+        dfsumm.loc[developed, ["cv"] + qtlhdrs] = np.NaN
 
         mcl_result = MackChainLadderResult(
             summary=dfsumm, tri=self.tri, ldfs=ldfs, trisqrd=trisqrd, dist=dist,
@@ -317,18 +310,18 @@ class MackChainLadder(BaseRangeEstimator):
         """
         devpvar = pd.Series(index=ldfs.index[:-1], dtype=float, name="devpvar")
         C, w, F = self.mod_tri, self.mod_a2aind, self.tri.a2a
-        n = self.tri.origins.size
-        for indx, jj in enumerate(self.tri.devp[:-2]):
-            devpvar[jj] = \
-                (w[jj] * (C[jj]**alpha) * (F[jj] - ldfs[jj])**2).sum() / (n - indx - 2)
-
-        # Calculate development period variance for period n-1. When both preceding
-        # variances are 0 (no further development), so is the extrapolated one.
-        devpvar.iloc[-1] = np.min([devpvar.iloc[-2], devpvar.iloc[-3]])
-        if devpvar.iloc[-3] > 0:
-            devpvar.iloc[-1] = np.min((
-                devpvar.iloc[-2]**2 / devpvar.iloc[-3], devpvar.iloc[-1]
-                ))
+        nbr_links = F.count()
+        for indx, jj in enumerate(self.tri.devp[:-1]):
+            if nbr_links[jj] > 1:
+                devpvar[jj] = \
+                    (w[jj] * (C[jj]**alpha) * (F[jj] - ldfs[jj])**2).sum() / (nbr_links[jj] - 1)
+            else:
+                # Extrapolate variance of development periods with a single link ratio. When
+                # both preceding variances are 0 (no further development), so is this one.
+                prior = devpvar.iloc[max(indx - 2, 0):indx]
+                devpvar[jj] = np.min(prior.values)
+                if prior.iloc[0] > 0:
+                    devpvar[jj] = np.min((prior.iloc[-1]**2 / prior.iloc[0], devpvar[jj]))
         return(devpvar)
 
 
@@ -358,10 +351,8 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        # Create latest reference using 1-based indexing.
-        latest = self.tri.latest.sort_index()
-        latest.origin = range(1, latest.index.size + 1)
-        latest.dev = range(latest.index.size, 0, -1)
+        # Create reference to latest development period using 1-based indexing.
+        latest_devps = self.tri.rlvi["col_offset"].values + 1
 
         # Create DataFrame to hold cellwise process error.
         dfpe = pd.DataFrame(columns=self.tri.columns, index=self.tri.index)
@@ -376,9 +367,11 @@ class MackChainLadder(BaseRangeEstimator):
 
         # `ii` iterates by origin, `kk` by development period.
         for ii in dfpe.index[1:]:
-            latest_devp = latest[latest["origin"] == ii]["dev"].item()
+            latest_devp = latest_devps[ii - 1]
+            if latest_devp == n:
+                continue
             latest_cum = trisqrd.at[ii, latest_devp]
-            kk0 = n + 2 - ii
+            kk0 = latest_devp + 1
             dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
@@ -410,10 +403,8 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        # Create latest reference using 1-based indexing.
-        latest = self.tri.latest.sort_index()
-        latest.origin = range(1, latest.index.size + 1)
-        latest.dev = range(latest.index.size, 0, -1)
+        # Create reference to latest development period using 1-based indexing.
+        latest_devps = self.tri.rlvi["col_offset"].values + 1
 
         # Create DataFrame to hold cellwise parameter error.
         dfpe = pd.DataFrame(columns=self.tri.columns, index=self.tri.index)
@@ -428,9 +419,11 @@ class MackChainLadder(BaseRangeEstimator):
 
         # `ii` iterates by origin, `kk` by development period.
         for ii in dfpe.index[1:]:
-            latest_devp = latest[latest["origin"] == ii]["dev"].item()
+            latest_devp = latest_devps[ii - 1]
+            if latest_devp == n:
+                continue
             latest_cum = trisqrd.at[ii, latest_devp]
-            kk0 = n + 2 - ii
+            kk0 = latest_devp + 1
             dfpe.at[ii, kk0] = latest_cum**2 * ldfvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-- 
2.43.0


From 0e63a1c656340d0cc4368076739eccc1b1d6cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 32/41] fix: Mack correlation and calendar year tests of
 triangles with unequal numbers of origins and development periods

---
 trikit/estimators/mack.py | 33 +++++++++++----------------------
 trikit/triangle.py        | 19 ++++++++-----------
 2 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index ed52835..402d0ff 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -631,14 +631,15 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         coeffs_list = []
         s_indices = [2 * ii for ii in range(dfranks.columns.size // 2)]
         r_indices = [1 + ii for ii in s_indices]
-        n = self.tri.devp.size
         for s_indx, r_indx in zip(s_indices, r_indices):
             # s_indx, r_indx = 0, 1
             k = int(dfranks.iloc[:, s_indx].name.replace("s_", ""))
-            w = n - k - 1
             s_ii = dfranks.iloc[:, s_indx]
             r_ii = dfranks.iloc[:, r_indx]
-            T_k = 1 - 6 * np.sum((r_ii - s_ii)**2 / ((n - k)**3 - n + k))
+            # Number of pairs, n - k when there are as many origins as periods.
+            m = int(r_ii.count())
+            w = m - 1
+            T_k = 1 - 6 * np.sum((r_ii - s_ii)**2 / (m**3 - m))
             coeffs_list.append({"k": k, "w": w, "T_k": T_k})
         return(pd.DataFrame().from_dict(coeffs_list, orient="columns"))
 
@@ -663,7 +664,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         float
         """
-        return((self.tri.devp.size - 2) * (self.tri.devp.size - 3) / 2)
+        return(self._spearman_corr_coeffs()["w"].sum())
 
 
     def devp_corr_test(self, p=.50):
@@ -736,24 +737,12 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         pd.DataFrame
         """
         summ_list = []
-        dflvi = self.tri.a2a_lvi
-        dfhl = self.tri.a2a_assignment
-        dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-
-        diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
-        dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
-            id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-
-        # Begin with latest diagonal. Work backwards.
-        for jj, devp in diag_indx[:-1]:
-            dcounts = dflvi.merge(dfhl2, on=["origin", "dev"])["value"].value_counts()
-            dsumm = {"j": jj, "S": dcounts.get(-1, 0), "L": dcounts.get(1, 0)}
-            summ_list.append(dsumm)
-            # Adjust dflvi by shifting origin period back a single period
-            # relative to devp. Drop record in which origin is missing.
-            dflvi["origin"] = dflvi["origin"].shift(-1)
-            dflvi = dflvi[~pd.isnull(dflvi.origin)]
-            dflvi["origin"] = dflvi["origin"].astype(int)
+        hl = self.tri.a2a_assignment.astype(float).values
+        # Factors of diagonal j are those with 0-based offsets summing to j - 1.
+        diag = np.add.outer(np.arange(hl.shape[0]), np.arange(hl.shape[1])) + 1
+        for jj in range(diag[~np.isnan(hl)].max(), 1, -1):
+            vals = hl[diag == jj]
+            summ_list.append({"j": jj, "S": (vals == -1).sum(), "L": (vals == 1).sum()})
 
         dfcy = pd.DataFrame().from_dict(summ_list).sort_values("j")
 
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 1d400bf..b243009 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -732,18 +732,15 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._ranked_a2a is None:
-            a2a_lvi = self.a2a_lvi
             rank_list = []
-            for devp_indx, devp in enumerate(a2a_lvi.index[:-1]):
-                last_valid_origin = a2a_lvi[a2a_lvi.index == devp].origin.item()
-                a2a_ii = self.a2a.loc[:, devp]
-                r_ii = a2a_ii.rank().to_frame().rename({devp: "r_{}".format(devp_indx + 1)}, axis=1)
-                s_ii = a2a_ii[a2a_ii.index < last_valid_origin].rank().to_frame().rename(
-                    {devp: "s_{}".format(devp_indx + 2)}, axis=1
-                    )
-                rank_list.append(r_ii)
-                rank_list.append(s_ii)
-            self._ranked_a2a = pd.concat(rank_list[1:-1], axis=1).dropna(how="all")
+            for kk in range(2, self.a2a.columns.size + 1):
+                # Rank adjacent columns over origins with factors in both.
+                a2a_kk = self.a2a.iloc[:, kk - 1].dropna()
+                if a2a_kk.size > 1:
+                    prior = self.a2a.iloc[:, kk - 2].loc[a2a_kk.index]
+                    rank_list.append(prior.rank().rename("s_{}".format(kk)))
+                    rank_list.append(a2a_kk.rank().rename("r_{}".format(kk)))
+            self._ranked_a2a = pd.concat(rank_list, axis=1).dropna(how="all")
         return(self._ranked_a2a)
 
 
-- 
2.43.0


From 38f5bc0a12c805492a645f5f21373a9a4d9d1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 33/41] fix: bootstrap resamples the residuals of every origin
 and development period observed more than once

---
 trikit/estimators/bootstrap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index c767c04..cf41b43 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -411,7 +411,9 @@ class BootstrapChainLadder(BaseRangeEstimator):
         Return ``resid_adj`` as a 1-dimensional array, which will be sampled
         from with replacement in order to produce synthetic triangles for
         bootstrapping. Any NaN's and 0's present in ``resid_adj`` will not be
-        present in the returned array.
+        present in the returned array, nor will residuals of origins or
+        development periods having a single observation, which are 0 up to
+        rounding.
 
         Parameters
         ----------
@@ -422,7 +424,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         -------
         np.ndarray
         """
-        resid_ = resid_adj.iloc[:-1, :-1].values.ravel()
+        resid_ = resid_adj.loc[resid_adj.count(axis=1) > 1, resid_adj.count() > 1].values.ravel()
         return(resid_[np.logical_and(~np.isnan(resid_), resid_ != 0)])
 
 
-- 
2.43.0


From e94ff58e95fd3beb5c607f904aa5c6c8d8f5b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 34/41] fix: Mack residuals of triangles with unequal numbers
 of origins and development periods

---
 trikit/estimators/mack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 402d0ff..df5cdeb 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -551,9 +551,9 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         pd.DataFrame
         """
-        devpx = self.tri.devp.values[:-1]
-        devpy = np.roll(devpx, shift=-1)
-        xy = list(zip(devpx, devpy))[:-1]
+        # A single residual can't be standardized.
+        devps = self.tri.devp.values
+        xy = [(x, y) for x, y in zip(devps[:-1], devps[1:]) if self.tri[y].count() > 1]
         resids_list = []
         for x, y in xy:
             # Multiply triangle values at development period x by ldf at development
@@ -581,7 +581,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         pd.DataFrame
         """
         resids_list = []
-        for origin in self.tri.origins[:-1]:
+        for origin in self.tri.a2a.index:
             dfresid = self.tri.loc[origin].to_frame().rename({origin: "yact"}, axis=1)
             dfresid["yhat"] = (dfresid["yact"] * self.ldfs).shift(1)
             dfresid = dfresid.dropna(how="any")
-- 
2.43.0


From 7e4990149aa420641cefd0e0b91c0f33676af6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 35/41] fix: triangles built directly aggregate records per
 cell and leave the caller's data alone

---
 trikit/triangle.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index b243009..50f874f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,10 +45,10 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
+        # Aggregate first: several records can share one cell.
+        data2 = data.reset_index(drop=True).groupby([origin_, dev_], as_index=False)[value_].sum(min_count=1)
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2[[origin_, dev_, value_]]
-        data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
@@ -464,10 +464,15 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data = data.copy()
-        data[value] = data.groupby([origin])[value].cumsum()
-        super().__init__(data=data, origin=origin, dev=dev, value=value)
+        self._validate(data, origin=origin, dev=dev, value=value)
+        origin_ = "origin" if origin is None else origin
+        dev_ = "dev" if dev is None else dev
+        value_ = "value" if value is None else value
+
+        # Cumulate cell totals in development order.
+        data = data.reset_index(drop=True).groupby([origin_, dev_], as_index=False)[value_].sum(min_count=1)
+        data[value_] = data.groupby([origin_])[value_].cumsum()
+        super().__init__(data=data, origin=origin_, dev=dev_, value=value_)
 
         # Properties.
         self._a2a_assignment = None
-- 
2.43.0


From 4018e3c0dd25bb34199ed095da45333f0ee9f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 36/41] fix: to_incr keeps the triangle's column names

---
 trikit/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 50f874f..c2ce4af 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -900,7 +900,8 @@ class CumTriangle(_BaseCumTriangle):
         df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
         df = df[~np.isnan(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
-        return(IncrTriangle(df, origin="origin", dev="dev", value="value"))
+        df = df.set_axis([self.origin, self.dev, self.value], axis=1)
+        return(IncrTriangle(df, origin=self.origin, dev=self.dev, value=self.value))
 
 
     def plot(self, display="combined", **kwargs):
-- 
2.43.0


From 009bd1fd59f2e6e29d1cf27fbdf8bfaf2b894ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 37/41] fix: keep the bootstrap result's probabilities apart
 from the caller's list and the shared default

---
 trikit/estimators/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index cf41b43..80d87cd 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1,6 +1,7 @@
 """
 BootstrapChainLadder implementation.
 """
+import copy
 import functools
 import warnings
 import numpy as np
@@ -890,7 +891,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         self.procdist = procdist
         self.sims = sims
         self.dof = dof
-        self.q = q
+        self.q = copy.copy(q)
 
         if kwargs is not None:
             for kk in kwargs:
-- 
2.43.0


From 81021e6b2fe8949030a3846c1c8220ef8acbe496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 38/41] fix: Mack estimator objects follow the triangle's
 current exclusions

---
 trikit/estimators/mack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index df5cdeb..fb2b969 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -51,7 +51,6 @@ class MackChainLadder(BaseRangeEstimator):
         super().__init__(cumtri)
 
         # Properties.
-        self._mod_a2aind = None
         self._mod_tri = None
 
 
@@ -232,9 +231,8 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        if self._mod_a2aind is None:
-            self._mod_a2aind = self.tri.a2aind.replace(0, np.NaN)
-        return(self._mod_a2aind)
+        # Not cached, since self.tri.a2aind can change between calls.
+        return(self.tri.a2aind.replace(0, np.NaN))
 
 
     def _ldfs(self, alpha=1, tail=1.0):
-- 
2.43.0


From 36cc323d895e5924b693e8a2a867769ec6f339bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 39/41] fix: averages use every observed link ratio, zero and
 negative ones included

---
 trikit/triangle.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index c2ce4af..8266824 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -809,14 +809,14 @@ class _BaseCumTriangle(_BaseTriangle):
             ]
 
         _a2a_avgs = pd.DataFrame(index=indxstrs, columns=self.a2a.columns)
-        a2a_adj = self.a2a * self.a2aind
+        a2a = self.a2a
 
         for a in enumerate(ldf_avg_lst):
             duration, avgtype, indxpos = a[1][1], a[1][0], a[0]
             indxstr, iterfunc = indxstrs[indxpos], avgfuncs[avgtype]
 
-            for col in range(a2a_adj.shape[1]):
-                itercol, colstr = a2a_adj.iloc[:, col], a2a_adj.columns[col]
+            for col in range(a2a.shape[1]):
+                itercol, colstr = a2a.iloc[:, col], a2a.columns[col]
 
                 if avgtype == 'weighted':
 
@@ -841,24 +841,11 @@ class _BaseCumTriangle(_BaseTriangle):
                         iteravg = np.NaN
 
                 else:
-                    # Find index of first row with NaN.
-                    if any(itercol.map(lambda x: np.isnan(x))):
-                        first_nan_year = itercol.index[itercol.apply(lambda x: np.isnan(x))][0]
-                        first_nan_indx = itercol.index.searchsorted(first_nan_year)
-                        final_cell_indx = first_nan_indx
-                        if duration == 0:
-                            first_cell_indx = 0
-                        else:
-                            first_cell_indx = (final_cell_indx - duration) if \
-                                              (final_cell_indx - duration) >= 0 else 0
-
-                    else:
-                        # itercol has 0 NaN's.
-                        final_cell_indx = len(itercol)
-                        first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
+                    # Most recent link ratios, less those that have been excluded.
+                    link_ratios = itercol.dropna()[-duration:]
+                    incl = self.a2aind[colstr].reindex(link_ratios.index) != 0
                     try:
-                        link_ratios = itercol[first_cell_indx:final_cell_indx]
-                        iteravg = iterfunc(link_ratios[link_ratios > 0])
+                        iteravg = iterfunc(link_ratios[incl])
                     except ZeroDivisionError:
                         iteravg = np.NaN
                 _a2a_avgs.loc[indxstr, colstr] = iteravg
-- 
2.43.0


From 120e210be372e992efa431b2b856739e5d844a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 40/41] fix: reject exclusions of link ratios the triangle does
 not have

---
 trikit/triangle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8266824..b1d8788 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -704,6 +704,11 @@ class _BaseCumTriangle(_BaseTriangle):
             1989  1  0  0  0  0  0  0  0  0
         """
         indx, column, value = update_spec
+        if value not in (0, 1):
+            raise ValueError("value must be either 0 or 1.")
+        if indx not in self.a2a.index or column not in self.a2a.columns or \
+                np.isnan(self.a2a.at[indx, column]):
+            raise KeyError("No link ratio at origin {}, dev {}.".format(indx, column))
         self._a2aind.at[indx, column] = value
 
 
-- 
2.43.0


From 9ca055c27e11b01a9546cd0e56466388f8227b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 41/41] fix: reject an unknown data_format of tabular data too

---
 trikit/triangle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index b1d8788..c801ac7 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1384,6 +1384,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
         if data_format.lower().strip().startswith("c"):
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
+        elif not data_format.lower().strip().startswith("i"):
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
-- 
2.43.0

