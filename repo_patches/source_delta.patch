From 1aa9d75c00260f66043be5061ca9eeb4e1627363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 01/31] fix: apply the embargo when it reaches the end of the
 data

When every sample after a test block started before the end of the embargo
period, embargo() skipped the filtering altogether, so that all of them
stayed in the train set although their intervals overlap the test set.
---
 mizarlabs/model/model_selection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 021e20b..9181f95 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -290,12 +290,10 @@ def embargo(
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-    if min_train_index < cv.indices.shape[0]:
-        allowed_indices = np.concatenate(
-            (cv.indices[:test_fold_end], cv.indices[min_train_index:])
-        )
-        train_indices = np.intersect1d(train_indices, allowed_indices)
-    return train_indices
+    allowed_indices = np.concatenate(
+        (cv.indices[:test_fold_end], cv.indices[min_train_index:])
+    )
+    return np.intersect1d(train_indices, allowed_indices)
 
 
 def purge(
-- 
2.43.0


From 777b8b63cc36e71cd5d07e4eb56fc0bed9b491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 02/31] fix: embargo only after the test samples before the
 block end

test_fold_end is a bound on position indices, but was used to slice
test_indices by rank. With more than one test block the evaluation times of
later test blocks were used too, and valid train samples were dropped.
---
 mizarlabs/model/model_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 9181f95..66c66e0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -286,7 +286,9 @@ def embargo(
             "The passed cross-validation object should have a "
             "member cv.embargo_td defining the embargo time."
         )
-    last_test_eval_time = cv.eval_times.iloc[test_indices[:test_fold_end]].max()
+    last_test_eval_time = cv.eval_times.iloc[
+        test_indices[test_indices < test_fold_end]
+    ].max()
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-- 
2.43.0


From 7e907484463638ce6d216cfe668a61e30d2a3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 03/31] fix: number of backtest paths depends on the number of
 groups

cv.n_splits is the number of train/test splits, C(n_groups, n_test_splits),
not the number of groups, so with two or more test groups more paths were
requested than there are predictions and an IndexError was raised.
---
 mizarlabs/model/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 66c66e0..81461ad 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -434,7 +434,7 @@ def combinatorial_cross_validation_paths(
 
             bound_pred_dict[test_bound[0]].append(tmp_df)
 
-    n_paths = compute_back_test_paths(cv.n_splits, cv.n_test_splits)
+    n_paths = compute_back_test_paths(cv.n_groups, cv.n_test_splits)
     paths = []
 
     # from the sub test computed create paths randomly picking one sub test
-- 
2.43.0


From 890da52f532b45dd3e0de650c0346d21a5cd0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 04/31] fix: do not use np.float, which numpy removed

It was an alias of float; fitting with a float max_features (the default)
raised an AttributeError.
---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 01f08e7..3231ef8 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -375,7 +375,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         # Validate max_features
         if isinstance(self.max_features, (numbers.Integral, np.integer)):
             max_features = self.max_features
-        elif isinstance(self.max_features, np.float):
+        elif isinstance(self.max_features, (float, np.floating)):
             max_features = self.max_features * self.n_features_
         else:
             raise ValueError("max_features must be int or float")
-- 
2.43.0


From 07aae0fb0667ad442c25731d5084048c817987de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 05/31] fix: read the untyped signature of the TA-lib functions

The docstrings of TA-lib 0.8 start with the typed cython signature
("SMA(ndarray real, int timeperiod=...)"), which was parsed instead of
"SMA(real[, timeperiod=?])", so that no transformer could be created.
---
 mizarlabs/transformers/technical/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 6082354..c4b0612 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -52,7 +52,11 @@ class TAFactory:
         :rtype: Tuple[List[str]]
         """
         ta_func = self.get_ta_func(func_name)
-        signature = re.search(r"\((.+)\)", ta_func.__doc__).group(1)
+        # the docstring of recent TA-lib versions starts with the typed cython
+        # signature, the untyped signature comes after it
+        signature = re.findall(
+            rf"^\s*{func_name}\((.+)\)", ta_func.__doc__, flags=re.MULTILINE
+        )[-1]
 
         args_kwargs_names = signature.split("[, ")
         if len(args_kwargs_names) == 1:
-- 
2.43.0


From 1d1e0a65d16a62b7eb176bcfb3bcb4a4e0374ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 06/31] fix: use only string column names in the metalabeling
 dataset

The feature unions give integer column names; with the string names of the
primary model features next to them sklearn refuses the dataset with a
TypeError.
---
 mizarlabs/model/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 9fb5ed3..3d4e5d3 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -400,6 +400,12 @@ class StrategySignalPipeline:
             axis=1,
         )
         X_metalabel_aligned.dropna(inplace=True)
+        if (
+            self.metalabeling_use_predictions_primary_model
+            or self.metalabeling_use_proba_primary_model
+        ):
+            # sklearn does not accept a mix of int and str column names
+            X_metalabel_aligned.columns = X_metalabel_aligned.columns.map(str)
         # add primary model predict values for metalabel model as features
         if self.metalabeling_use_predictions_primary_model:
             X_metalabel_aligned["primary_side_pred"] = pd.Series(
-- 
2.43.0


From 962a4fe29c75352475ce14273c7225bbc096b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 07/31] fix: ask the closing positions model which positions to
 close

The attribute name was misspelled in the hasattr check, so the model was
never called and None was always returned.
---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 3d4e5d3..601a350 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -687,7 +687,7 @@ class StrategySignalPipeline:
 
     def determine_positions_to_close(self, X_dict: Dict[str, pd.DataFrame]):
         positions_to_close = None
-        if hasattr(self, "closing_position_model") and self.closing_positions_model:
+        if hasattr(self, "closing_positions_model") and self.closing_positions_model:
             positions_to_close = self.closing_positions_model.close_positions(X_dict)
 
         if positions_to_close not in ("all", "long", "short", None):
-- 
2.43.0


From 587787f271200e89b6c09ba8d63f1ce585c8acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 08/31] fix: do not add the strategy bars columns to the
 caller's dataframe

create_strategy_bars wrote stop loss, profit taking and number of expiration
bars into the dataframe it was given.
---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 601a350..c2fa7a9 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -803,7 +803,7 @@ class StrategyTrader:
 
         # target dataframe is extracted so that the volatility can be
         # calculated
-        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_]
+        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_].copy()
 
         volatility_adjusted_stop_loss = (
             self.volatility_adjusted_stop_loss
-- 
2.43.0


From b032417ebd013ec5580bf44144867a700286a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 09/31] fix: average active bets with a custom bet size column
 name

The bets were stored under the default column name and looked up under the
custom one, which raised a KeyError.
---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 415aa85..1f020d0 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -123,9 +123,9 @@ class BetSizingFromProbabilities(BetSizingBase):
             bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
 
         if self._average_active:
-            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(BET_SIZE).join(
-                X[[self._event_end_time_column_name]], how="left"
-            )
+            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
+                self._bet_size_column_name
+            ).join(X[[self._event_end_time_column_name]], how="left")
 
             bet_sizing_signal = avg_active_signals(
                 bet_sizing_signal_with_barrier,
-- 
2.43.0


From 396a94363b7b4442c983949eb5c750d9393fda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 10/31] fix: do not keep the events of the first series in the
 trend scanner

With t_events=None the first transform stored the index of its series in
t_events, and transforming another series failed.
---
 mizarlabs/transformers/targets/trend_scanning.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index b7ede78..f288dd0 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -77,9 +77,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         assert set(required_columns) == set(
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
-        assert set(self.t_events) == set(
-            output_df.index.values
-        ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+        if self.t_events is not None:
+            assert set(self.t_events) == set(
+                output_df.index.values
+            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -117,13 +118,12 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        if self.t_events is None:
-            self.t_events = y.index.values
+        t_events = y.index.values if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
             y_array=y.values.astype(np.float64),
-            indices=y.index.get_indexer(self.t_events),
+            indices=y.index.get_indexer(t_events),
             min_sample_length=self.min_sample_length,
             look_forward_window=self.look_forward_window,
             step=self.step,
@@ -137,7 +137,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         # cast results into dataframe and compute the returns and the sign of the return
         labels = pd.DataFrame(
             {EVENT_END_TIME: event_end_times_array, T_VALUE: t_values_array},
-            index=self.t_events,
+            index=t_events,
         )
         non_nan_labels = labels[EVENT_END_TIME].dropna()
         labels.loc[non_nan_labels.index, RETURN] = (
-- 
2.43.0


From 849b920e6a0901cf2694b00d1455ab951374d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 11/31] fix: accept timestamps as events of the trend scanner

t_events is documented as an array or list of pd.Timestamp, but the check
compared them with numpy datetimes, which never are in the same set: a list
of timestamps or the DatetimeIndex the CUSUM filter returns was rejected.
---
 mizarlabs/transformers/targets/trend_scanning.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index f288dd0..3a6f729 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -65,10 +65,11 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             input_series, pd.Series
         ), "Please provide only a Pandas series with close prices with datetime indices."
         if self.t_events is not None:
-            assert set(input_series.index.values).issuperset(set(self.t_events)), (
+            missing_events = set(pd.Index(self.t_events)) - set(input_series.index)
+            assert not missing_events, (
                 f"The following time indices are in t_events but "
                 f"not in the provided series "
-                f"{set(input_series.index.values) - set(self.t_events)}"
+                f"{missing_events}"
             )
 
     def _check_output(self, output_df: pd.DataFrame):
@@ -78,9 +79,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
         if self.t_events is not None:
-            assert set(self.t_events) == set(
-                output_df.index.values
-            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+            missing_events = set(pd.Index(self.t_events)) - set(output_df.index)
+            assert (
+                not missing_events
+            ), f"Missing following time indices in output DataFrame: {missing_events}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
-- 
2.43.0


From 8cdee666302a8df548b887eed68582dc79690537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 12/31] fix: do not pick uninitialised t values in the trend
 scanner

With a step larger than one only some entries of the t value array are
written, but the maximum was searched in all of them.
---
 mizarlabs/transformers/targets/trend_scanning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 3a6f729..16a4856 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -233,7 +233,8 @@ def _get_t_val_and_event_end_time_index_at_index(
     """
 
     # init array to stores t values in
-    t_values_array = np.empty(y_subset.shape[0] - min_sample_length)
+    # (the windows that are skipped because of the step keep a t value of zero)
+    t_values_array = np.zeros(y_subset.shape[0] - min_sample_length)
 
     # expand forward looking window, compute and store t value, keeping into account
     # the min_sample_length and the stepsize
-- 
2.43.0


From c3e169771bf74ec959a6552388748913c3011ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 13/31] fix: do not crash on a perfect fit in the trend scanner

When the prices of a window lie exactly on a line the standard error is zero
and the division raised a ZeroDivisionError inside the parallel loop.
---
 mizarlabs/transformers/targets/trend_scanning.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 16a4856..4e09559 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -261,9 +261,14 @@ def _get_t_val_and_event_end_time_index_at_index(
         )
 
         # compute t value for trend coefficient
-        t_values_array[forward_window - min_sample_length] = b_mean_[1, 0] / np.sqrt(
-            b_var_[1, 1]
-        )
+        b_std = np.sqrt(b_var_[1, 1])
+        if b_std > 0:
+            t_value = b_mean_[1, 0] / b_std
+        elif b_mean_[1, 0] == 0:
+            t_value = 0.0  # flat line
+        else:
+            t_value = np.sign(b_mean_[1, 0]) * np.inf  # perfect trend
+        t_values_array[forward_window - min_sample_length] = t_value
 
     # identify max abs t-value and its location
     index_max_t_value = np.argmax(np.abs(t_values_array))
-- 
2.43.0


From 14d31a69f2c21721d768ca3411f5953c92b9f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 14/31] fix: penalize the SMT statistic by the sample length

The statistic was divided by t0 ** phi instead of (t - t0) ** phi (page 260
and the docstring), so the penalty hit the short samples.
---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index d4d965b..b95b9aa 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -124,7 +124,7 @@ def _get_sadf_at_t(
         if model[:2] == "sm":
             t = y.shape[0]
             t0 = start + 1  # t0 index starts from 1 to t - tau (page 260)
-            current_adf = np.abs(current_adf) / ((y.shape[0] - (t - t0)) ** phi)
+            current_adf = np.abs(current_adf) / ((t - t0) ** phi)
 
         adf_array[start] = current_adf
 
-- 
2.43.0


From fcfe1157ff3f93e9cfa8934da7836f1c27e0a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 15/31] fix: allow a list of lags in the SADF test

lags is documented as a number or a list of lags, but a list could not be
compared with min_length.
---
 mizarlabs/structural_breaks/sadf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index b95b9aa..774ea6c 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,8 +50,9 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
+        max_lag = lags if isinstance(lags, int) else max(lags)
         assert (
-            min_length > lags
+            min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
         self.model = model
         self.lags = lags
-- 
2.43.0


From cf0d8105eb33ffa7b7d8c60f8b994fd7006afb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 16/31] fix: triple barrier labeling with a custom side column
 name

The side was stored under the custom name, but is read from the default one.
---
 mizarlabs/transformers/targets/labeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 147878a..2abb148 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -167,10 +167,10 @@ class TripleBarrierMethodLabeling(BaseLabeling):
             else 1
         )
 
-        if SIDE not in y.columns:
-            barriers_info_df[self.side_column_name] = 1
+        if self.side_column_name not in y.columns:
+            barriers_info_df[SIDE] = 1
         else:
-            barriers_info_df[self.side_column_name] = y[self.side_column_name]
+            barriers_info_df[SIDE] = y[self.side_column_name]
 
         barriers_df = triple_barrier_labeling(
             close=y[self.close_column_name],
-- 
2.43.0


From f19d8e6fc1ba9ba51d717035ad7144622e9b2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 17/31] fix: allow an indicator matrix full of ones

When every sample spans every bar, for example with a single sample, the
matrix has no zeros and the assertion failed.
---
 mizarlabs/model/bootstrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/bootstrapping.py b/mizarlabs/model/bootstrapping.py
index 593a663..75638ea 100644
--- a/mizarlabs/model/bootstrapping.py
+++ b/mizarlabs/model/bootstrapping.py
@@ -70,7 +70,7 @@ def get_ind_matrix(
 
     ind_mat_csc = ind_mat.tocsc()
     assert np.max(ind_mat_csc) == 1
-    assert np.min(ind_mat_csc) == 0
+    assert np.min(ind_mat_csc) in (0, 1)
 
     if return_indices:
         return ind_mat, bar_index
-- 
2.43.0


From 902b96da8784cd69298658990b752694c46956be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 18/31] fix: estimators_samples_ returns the samples that were
 drawn

The inherited property draws a standard bootstrap from the seeds again, which
has nothing to do with the sequential bootstrap the estimators were fitted on.
---
 .../model/sequentially_bootstrapped_bagging_classifier.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 3231ef8..9584c38 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -265,6 +265,13 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
             )
         return self._ind_mat
 
+    @property
+    def estimators_samples_(self):
+        """
+        The indices of the samples drawn for each base estimator.
+        """
+        return self.sequentially_bootstrapped_samples_
+
     def fit(
         self,
         X: pd.DataFrame,
-- 
2.43.0


From 813058e6682782a072626634396ae6953b6627ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 19/31] fix: label data in which no event has an end time

---
 mizarlabs/transformers/targets/labeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 2abb148..3572423 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -409,6 +409,8 @@ def get_labels(
 
     pd.testing.assert_series_equal(returns, output_df[RETURN])
 
+    output_df[LABEL] = np.nan
+
     if metalabeling:
         # metalabeling labels are always only 1 and 0. 1 is assigned when the
         # base model is correct while 0 is assigned when the base model is not
@@ -428,7 +430,7 @@ def get_labels(
         expired_events = barriers_df.loc[events_without_na.index].loc[
             barriers_df.stop_loss.isna() & barriers_df.profit_taking.isna()
         ]
-        output_df.loc[expired_events.index, LABEL] = 0
+        output_df.loc[output_df.index.isin(expired_events.index), LABEL] = 0
 
     assert set(output_df.columns) == {RETURN, LABEL}
 
-- 
2.43.0


From 3233e85627238d28636a4150fc4c72384aeca528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 20/31] fix: out-of-bag score when an estimator has drawn every
 sample

---
 .../model/sequentially_bootstrapped_bagging_classifier.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 9584c38..cefd239 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -608,6 +608,10 @@ class SequentiallyBootstrappedBaggingClassifier(
             # Create mask for OOB samples
             mask = ~indices_to_mask(samples, n_samples)
 
+            # every sample has been drawn for this estimator
+            if not mask.any():
+                continue
+
             if hasattr(estimator, "predict_proba"):
                 predictions[mask, :] += estimator.predict_proba(
                     (X[mask, :])[:, features]
-- 
2.43.0


From e48f008c99860a3e342a4b78083d5fc2d19f7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 21/31] fix: out-of-bag votes of estimators that have not seen
 every class

---
 .../model/sequentially_bootstrapped_bagging_classifier.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index cefd239..d0be404 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -613,9 +613,10 @@ class SequentiallyBootstrappedBaggingClassifier(
                 continue
 
             if hasattr(estimator, "predict_proba"):
-                predictions[mask, :] += estimator.predict_proba(
-                    (X[mask, :])[:, features]
-                )
+                # the classes that have not been drawn are unknown to the estimator
+                predictions[
+                    np.ix_(mask, estimator.classes_)
+                ] += estimator.predict_proba((X[mask, :])[:, features])
 
             else:
                 p = estimator.predict((X[mask, :])[:, features])
-- 
2.43.0


From 6d8d1ae987ee845459ce45ea2f4433805b16d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 22/31] fix: use the classes of primary models without
 n_classes_ for metalabeling

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index c2fa7a9..63b53e5 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -419,7 +419,7 @@ class StrategySignalPipeline:
                 index=X_primary_aligned.index,
                 columns=[
                     f"primary_side_pred_proba_{i}"
-                    for i in range(self.primary_model.n_classes_)
+                    for i in range(len(self.primary_model.classes_))
                 ],
             )
             # to avoid the creation of unwanted nans the join between the the
-- 
2.43.0


From 0a088213b1c8012113c8855440d6c0f59083b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 23/31] fix: use predictions without probabilities as
 metalabeling features

---
 mizarlabs/model/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 63b53e5..719626b 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -408,9 +408,14 @@ class StrategySignalPipeline:
             X_metalabel_aligned.columns = X_metalabel_aligned.columns.map(str)
         # add primary model predict values for metalabel model as features
         if self.metalabeling_use_predictions_primary_model:
-            X_metalabel_aligned["primary_side_pred"] = pd.Series(
+            X_primary_pred_feature = pd.Series(
                 self.primary_model.predict(X_primary_aligned),
                 index=X_primary_aligned.index,
+                name="primary_side_pred",
+            )
+            # inner join to avoid nans, as for the probabilities below
+            X_metalabel_aligned = pd.concat(
+                [X_metalabel_aligned, X_primary_pred_feature], axis=1, join="inner"
             )
         # add primary model predict proba values for metalabel model as features
         if self.metalabeling_use_proba_primary_model:
-- 
2.43.0


From 0c6353ae2d3c90e8f702c88e866e09c4b406ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 24/31] fix: hand the labels to the transformers in
 fit_transform of the feature union

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 719626b..c39878d 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -27,7 +27,7 @@ from mizarlabs.transformers.utils import check_missing_columns
 
 class MizarFeatureUnion(FeatureUnion):
     def fit_transform(self, X, y=None, **fit_params):
-        Xs = super().fit_transform(X, y=None, **fit_params)
+        Xs = super().fit_transform(X, y, **fit_params)
 
         return pd.DataFrame(Xs, index=X.index)
 
-- 
2.43.0


From 62a9fdcc2d15bf2878689724dcde78ad43cd659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 25/31] fix: let the rolling features be fitted as part of a
 pipeline

---
 mizarlabs/transformers/features/custom.py          | 3 +++
 mizarlabs/transformers/features/rolling_z_score.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mizarlabs/transformers/features/custom.py b/mizarlabs/transformers/features/custom.py
index 104cb04..3b72911 100644
--- a/mizarlabs/transformers/features/custom.py
+++ b/mizarlabs/transformers/features/custom.py
@@ -7,6 +7,9 @@ class LocalMaxToCloseRatio(BaseEstimator, TransformerMixin):
     def __init__(self, window):
         self.window = window
 
+    def fit(self, X, y=None, **fit_params):
+        return self
+
     def transform(self, X: pd.DataFrame) -> pd.Series:
         return (X.high.rolling(window=self.window).max() / X.close).values.reshape(
             -1, 1
diff --git a/mizarlabs/transformers/features/rolling_z_score.py b/mizarlabs/transformers/features/rolling_z_score.py
index 276c733..bc91395 100644
--- a/mizarlabs/transformers/features/rolling_z_score.py
+++ b/mizarlabs/transformers/features/rolling_z_score.py
@@ -18,6 +18,9 @@ class RollingZScoreTransformer(BaseEstimator, TransformerMixin):
         self.window = window
         self.to_series_func = to_series_func
 
+    def fit(self, X, y=None, **fit_params):
+        return self
+
     def transform(self, X: pd.DataFrame) -> pd.Series:
         """Transform dataframe into rolling z score.
 
-- 
2.43.0


From eb1dbc93d2d1731317e7a590c72c333a473c6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 26/31] fix: string column names when the data sets mix int and
 str names

---
 mizarlabs/model/pipeline.py | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index c39878d..ce1deb8 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -313,6 +313,22 @@ class StrategySignalPipeline:
                 f"metalabeling model"
             )
 
+    @staticmethod
+    def _concat_features(feature_dfs) -> pd.DataFrame:
+        """
+        Concatenate the features of all the data sets side by side
+
+        :param feature_dfs: the dataframes with features
+        :type feature_dfs: Iterable[pd.DataFrame]
+        :return: one dataframe with all the features
+        :rtype: pd.DataFrame
+        """
+        X = pd.concat(feature_dfs, axis=1)
+        if len({isinstance(column, str) for column in X.columns}) > 1:
+            # sklearn does not accept a mix of int and str column names
+            X.columns = X.columns.map(str)
+        return X
+
     @staticmethod
     def _align_X_dict_and_y(
         X_dict: Dict[str, pd.DataFrame], y: pd.Series, drop_na: bool = True
@@ -332,13 +348,17 @@ class StrategySignalPipeline:
 
         if drop_na:
             y_no_nans = y.dropna()
-            X = pd.concat([df.loc[y_no_nans.index] for df in X_dict.values()], axis=1)
+            X = StrategySignalPipeline._concat_features(
+                [df.loc[y_no_nans.index] for df in X_dict.values()]
+            )
             X_aligned = X.dropna()
             y_aligned = y.loc[X_aligned.index]
             check_X_y(X_aligned, y_aligned)
             return X_aligned, y_aligned
         else:
-            X = pd.concat([df for df in X_dict.values()], axis=1)
+            X = StrategySignalPipeline._concat_features(
+                [df for df in X_dict.values()]
+            )
             return X, y
 
     def transform(
@@ -395,9 +415,8 @@ class StrategySignalPipeline:
         :return: Aligned dataset for the metalabeling model
         :rtype: pd.DataFrame
         """
-        X_metalabel_aligned = pd.concat(
-            [df for df in X_features_dict[self._metalabeling_model_features].values()],
-            axis=1,
+        X_metalabel_aligned = self._concat_features(
+            [df for df in X_features_dict[self._metalabeling_model_features].values()]
         )
         X_metalabel_aligned.dropna(inplace=True)
         if (
@@ -470,9 +489,8 @@ class StrategySignalPipeline:
 
         X_features_dict = self.transform(X_dict)
         X_features_dict = self._align_on(X_features_dict)
-        X_primary_aligned = pd.concat(
-            [df for df in X_features_dict[self._primary_model_features].values()],
-            axis=1,
+        X_primary_aligned = self._concat_features(
+            [df for df in X_features_dict[self._primary_model_features].values()]
         )
         X_primary_aligned.dropna(inplace=True)
 
@@ -515,9 +533,8 @@ class StrategySignalPipeline:
         # concatenating all the features dataframes in
         # one single dataframe that can be used for
         # predictions
-        X_primary_aligned = pd.concat(
-            [df for df in X_features_dict[self._primary_model_features].values()],
-            axis=1,
+        X_primary_aligned = self._concat_features(
+            [df for df in X_features_dict[self._primary_model_features].values()]
         )
         X_primary_aligned.dropna(inplace=True)
 
-- 
2.43.0


From b2c58fa56d5f7f91e2e3e73f1a24f80dbf9b6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:19 +0000
Subject: [PATCH 27/31] fix: VPIN of fewer bars than the window

---
 mizarlabs/transformers/microstructural_features/vpin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 2abf729..3ba0789 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,7 +73,8 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
+        if len(X) > self.window:
+            vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
 
         assert (
             ~vpin_feature[self.window :].isna().any()
-- 
2.43.0


From 26facc8146612cd2a5df864befa60e6b5f48b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 28/31] fix: structural break tests returned undefined memory
 where a regression is singular

An exception raised inside a parallel loop is lost with the rest of the
thread's iterations, and the values not computed were whatever the memory
held. Regressions that are not identified now give no statistic.
---
 mizarlabs/structural_breaks/sadf.py |  5 +++--
 mizarlabs/structural_breaks/sdfc.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 774ea6c..335f051 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -88,7 +88,7 @@ class SupremumAugmentedDickeyFullerStatTest:
         return pd.Series(sadf_array, index=indices)
 
 
-@jit(parallel=False, nopython=True)
+@jit(parallel=False, nopython=True, error_model="numpy")
 def _get_sadf_at_t(
     X: np.ndarray, y: np.ndarray, min_length: int, model: str, phi: float
 ) -> np.float64:
@@ -129,7 +129,8 @@ def _get_sadf_at_t(
 
         adf_array[start] = current_adf
 
-    return np.max(adf_array)
+    # start points whose regression is not identified have no statistic
+    return np.nanmax(adf_array)
 
 
 def _get_X_y_standard_specification(
diff --git a/mizarlabs/structural_breaks/sdfc.py b/mizarlabs/structural_breaks/sdfc.py
index 115936f..0567893 100644
--- a/mizarlabs/structural_breaks/sdfc.py
+++ b/mizarlabs/structural_breaks/sdfc.py
@@ -38,11 +38,15 @@ def get_dfc_array(
     return dfc_array
 
 
-@njit
+@njit(error_model="numpy")
 def get_beta_and_beta_var(X: np.ndarray, y: np.ndarray) -> Tuple[float]:
     """
     Returns the OLS estimates of the coefficients and the variance of the coefficients.
 
+    Both are NaN when the coefficients are not identified (singular X'X). Nothing is
+    raised, since an exception inside a parallel loop gets lost together with the
+    remaining iterations of the thread.
+
     :param X: Matrix with features values
     :type X: pd.DataFrame
     :param y: Series with target values.
@@ -53,7 +57,11 @@ def get_beta_and_beta_var(X: np.ndarray, y: np.ndarray) -> Tuple[float]:
     """
     Xy = np.dot(X.T, y)
     XX = np.dot(X.T, X)
-    XX_inv = np.linalg.inv(XX)
+    XX_inv = np.full_like(XX, np.nan).T
+    try:
+        XX_inv = np.linalg.inv(XX)
+    except Exception:
+        pass
     beta_hat = np.dot(np.ascontiguousarray(XX_inv), Xy)
     err = y - np.dot(X, beta_hat)
     beta_hat_var = np.dot(err.T, err) / (X.shape[0] - X.shape[1]) * XX_inv
-- 
2.43.0


From a486f7079b2529ac950bef200ccf27c6ef1fa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 29/31] fix: trend scanning of zone-aware series labels every
 event NaN

---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 4e09559..0776a91 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -120,7 +120,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        t_events = y.index.values if self.t_events is None else self.t_events
+        t_events = y.index if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
-- 
2.43.0


From 642b5fad9c2ba9d72899174332b34234aed00c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 30/31] fix: Chow-type statistics keep the time zone of the
 series

---
 mizarlabs/structural_breaks/sdfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sdfc.py b/mizarlabs/structural_breaks/sdfc.py
index 0567893..a5bbf6a 100644
--- a/mizarlabs/structural_breaks/sdfc.py
+++ b/mizarlabs/structural_breaks/sdfc.py
@@ -95,7 +95,7 @@ class SupremumDickeyFullerChowStatTest:
         )
         return pd.Series(
             dfc_array,
-            index=series_to_test.index.values[
+            index=series_to_test.index[
                 self.min_num_samples : series_to_test.shape[0] - self.min_num_samples
             ],
         )
-- 
2.43.0


From c98064e5121cbeea5b672d9397af03f08df3dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 31/31] fix: averaged active bet sizes keep the time zone of
 the bets

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 1f020d0..e3a3544 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -177,7 +177,11 @@ def avg_active_signals(
     )
 
     avg_active_bet_size = pd.Series(
-        avg_active_bet_size_list, index=active_bet_size_time_indices, dtype=float
+        avg_active_bet_size_list,
+        index=pd.to_datetime(active_bet_size_time_indices, utc=True).tz_convert(
+            signals.index.tz
+        ),
+        dtype=float,
     )
 
     return avg_active_bet_size
-- 
2.43.0

