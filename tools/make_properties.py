"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os

OUT = []
ML = "mizarlabs/"
M = ML + "model/"
T = ML + "transformers/"
SB = ML + "structural_breaks/"


def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
        },
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    OUT.append(d)


P("C01", "Purged cross-validation never trains on information overlapping the test set",
  "In every split of the combinatorial purged cross-validation, the interval from prediction time to evaluation time of a training sample never overlaps that of a test sample, and no sample is in both sets. A training sample that follows a test sample starts strictly later than that test sample's evaluation time plus the embargo period. This holds for every sample, including the ones at the very end of the data and the ones between two test groups.",
  ["inputs", "configurations"],
  "every non-decreasing series of prediction times (ties included), every evaluation time not before the prediction time (constant, random, very long horizons), every number of groups and test groups, every embargo including one that reaches past the end of the data",
  "The tests look at one regular bar series with one horizon and small embargo; leakage needs irregular overlaps, long horizons or an embargo that reaches the end of the data.",
  [M + "model_selection.py"],
  [("split / train set computation", M + "model_selection.py:CombPurgedKFoldCV.split"), ("purging", M + "model_selection.py:purge"), ("embargo", M + "model_selection.py:embargo")],
  ["the index arrays yielded by split"])

P("C02", "Purged cross-validation tests every group combination and purges nothing more",
  "Splitting into g groups with k test groups yields exactly one split for each of the g-choose-k combinations of contiguous, time-ordered groups whose sizes differ by at most one, the test set of a split being all samples of its groups in increasing order; the first split tests the k last groups. A sample outside the test groups is missing from the training set only if its interval overlaps a test sample's interval or it starts within the embargo after a test sample's evaluation. The number of splits announced equals the number produced, and settings that allow no split (no test group, all groups for testing, a negative embargo) are refused with an error.",
  ["inputs", "configurations"],
  "every number of samples, groups and test groups, every series of prediction and evaluation times and every embargo",
  "The tests check a single configuration and never compare the training set with the exact set of admissible samples, so over-purging or a dropped remainder sample goes unseen.",
  [M + "model_selection.py"],
  [("fold bounds", M + "model_selection.py:CombPurgedKFoldCV._test_fold_bounds"), ("test set", M + "model_selection.py:CombPurgedKFoldCV._compute_test_set"), ("train set", M + "model_selection.py:CombPurgedKFoldCV._compute_train_set")])

P("C03", "Backtest paths partition all out-of-sample predictions of the combinatorial CV",
  "With g groups and k test groups the combinatorial backtest returns exactly C(g-1, k-1) paths, and every path contains every sample exactly once together with that sample's own labels. The prediction and the highest class probability of a sample in a path were made by the model fitted on the training samples of a split in which the sample is a test sample. Every out-of-sample prediction made is used in exactly one path.",
  ["inputs", "configurations"],
  "every number of groups and test groups, data sets and classifiers, every outcome of the random choice of predictions",
  "The only test covers the path count formula; the construction itself runs on no configuration with more than one test group.",
  [M + "model_selection.py"],
  [("path construction", M + "model_selection.py:combinatorial_cross_validation_paths"), ("number of paths", M + "model_selection.py:compute_back_test_paths")],
  ["fit / predict / predict_proba calls on the signal pipeline passed in", "the list of paths yielded"])

P("C04", "Triple-barrier events end at the first barrier that is touched",
  "The end time of an event is the earliest of its expiration bar (the given number of bars later) and the first bar, from the event up to but excluding the expiration bar, at which the side-adjusted return since the event's close is strictly above the profit-taking factor times the event's volatility or strictly below minus the stop-loss factor times it. A factor of zero removes that barrier; when volatility adjustment is off the factors are the barriers; an event with no volatility estimate has no end time, return or label. An event whose expiration lies beyond the data has an end time only if a horizontal barrier is touched before the last bar.",
  ["inputs", "configurations"],
  "every price history (gaps, ties with a barrier, irregular bar times), long, short and mixed sides, default and custom column names, every factor, horizon and volatility window",
  "The tests compare a few events of one data set; touches on the first or last admissible bar, exact ties, short sides and events near the end of the data are not sampled.",
  [T + "targets/labeling.py"],
  [("barrier touch kernel", T + "targets/labeling.py:get_horizontal_barriers_hit"), ("first touch", T + "targets/labeling.py:triple_barrier_labeling"), ("labeling", T + "targets/labeling.py:TripleBarrierMethodLabeling")])

P("C05", "Triple-barrier returns and labels follow the price at the event end",
  "The return of an event is close at its end time over close at the event minus one, multiplied by the side in meta-labeling. Without meta-labeling the label is the sign of that return; with meta-labeling it is one for a positive, zero for a negative and missing for a zero side-adjusted return; with expiration labels every event that ended without touching a horizontal barrier is labelled zero. Events without an end time have neither return nor label, and the output has exactly one row per input bar, in the input's order.",
  ["inputs", "configurations"],
  "every price history and side series, with and without meta-labeling, expiration labels and volatility adjustment",
  "The tests check label sets and a few values for one data set; zero returns, zero sides and expiry combined with meta-labeling are not sampled.",
  [T + "targets/labeling.py"],
  [("labels", T + "targets/labeling.py:get_labels"), ("output assembly", T + "targets/labeling.py:TripleBarrierMethodLabeling._transform")])

P("C06", "Daily volatility is the causal EW deviation of one-day returns",
  "The daily volatility at a bar is the bias-corrected exponentially weighted standard deviation, with the given span, of all one-day returns up to and including that bar, where a one-day return compares a bar's close with the close of the last bar that is strictly more than one day older. Bars that have no such older bar get no estimate. The value at a bar never changes when later bars are appended or altered.",
  ["inputs", "configurations"],
  "every price history with irregular bar times, gaps of several days and every span",
  "One regular data set with one span is tested and the values are compared only through labels; causality is never tested.",
  [T + "targets/labeling.py"],
  [("daily volatility", T + "targets/labeling.py:get_daily_vol")])

P("C07", "Triple-barrier labels do not depend on data after the event's expiration",
  "The volatility, end time, return and label of an event whose expiration bar is within the data are the same whatever the prices and sides after that expiration bar are, and whether or not more bars follow. Appending bars never changes a label that was already decided. The labels of an event depend on earlier bars only through its volatility.",
  ["inputs", "histories"],
  "every price history, every point at which it is cut, every continuation",
  "No test labels a prefix or a continuation of a series; a dependence on the future shows only when two histories with a common prefix are compared.",
  [T + "targets/labeling.py"],
  [("labeling", T + "targets/labeling.py:TripleBarrierMethodLabeling"), ("barrier touch kernel", T + "targets/labeling.py:get_horizontal_barriers_hit")])

P("C08", "Trend scanning reports the look-forward window with the largest t-value",
  "For each event with a full look-forward window of L bars, trend scanning fits a straight line to the first m, m+step, m+2 step, ... bars (m being the minimum sample length, always fewer than L bars) starting at the event and reports the slope t-value with the largest magnitude, the first such window on ties. The event ends at the last bar of that window, the return is that bar's price over the event's price minus one, and the label is the sign of the t-value. Events with fewer than L bars left get missing values, and exactly flat or exactly linear stretches do not make it fail.",
  ["inputs", "configurations"],
  "every price series, every L, m and step, all bars or any subset of them as events (arrays, lists or time indexes)",
  "Tests check columns, shapes and one synthetic trend; step sizes above one, ties, truncated windows and degenerate fits are not compared with a reference.",
  [T + "targets/trend_scanning.py"],
  [("window search", T + "targets/trend_scanning.py:_get_t_val_and_event_end_time_index_at_index"), ("event loop", T + "targets/trend_scanning.py:_trend_scan_each_index"), ("labeler", T + "targets/trend_scanning.py:TrendScannerLabeling")])

P("C09", "Trend scanning is local to each event's window and keeps no state",
  "What trend scanning reports for an event depends only on the prices of the event's own look-forward window: it is the same when only a subset of events is asked for, in whatever order, when earlier bars are dropped or later bars are changed or appended. Using one labeler for several series gives the same result as a new labeler for each. A uniform rescaling of all prices leaves end times, returns, t-values and labels unchanged.",
  ["inputs", "histories"],
  "every series, event subset, cut point, continuation and every sequence of uses of one labeler",
  "Each test builds one labeler for one series and looks at one call, so state kept between calls or dependence on other bars cannot show.",
  [T + "targets/trend_scanning.py"],
  [("labeler", T + "targets/trend_scanning.py:TrendScannerLabeling")])

P("C10", "The CUSUM filter selects exactly the bars where cumulative moves exceed it",
  "The filter accumulates upward and downward price changes separately, each floored at zero, and selects a bar exactly when one of the two accumulated moves strictly exceeds the threshold; only the accumulator that triggered restarts from zero, the downward one taking precedence. The bars selected are in time order and a subset of the series' index. Selections up to a bar depend only on prices up to that bar.",
  ["inputs", "histories"],
  "every price series and threshold, including moves exactly equal to the threshold, long one-sided and alternating runs, and every prefix of a series",
  "Tests use one data set with a few thresholds and mostly check counts; ties with the threshold and the accumulator that is not reset are not exercised.",
  [T + "sampling/down_sampling.py"],
  [("CUSUM filter", T + "sampling/down_sampling.py:CUSUMFilter.transform")])

P("C11", "The indicator matrix marks exactly the bars each label spans",
  "The indicator matrix has one row per distinct time among the label start times, the label end times and the price bars between the first start and the last end, in time order, and one column per label in the order given. An entry is one exactly when its time lies between the label's start and end, both included, and zero otherwise. Labels with a missing start or end are refused with an error.",
  ["inputs"],
  "every set of label start and end times (ties, labels of a single bar, unsorted, ends between bars, a single label) and every set of price bars",
  "Tests use one small hand-made set and one data set; ends that are not bars, bars outside the label period and degenerate sets are missing.",
  [M + "bootstrapping.py"],
  [("indicator matrix", M + "bootstrapping.py:get_ind_matrix")])

P("C12", "Average uniqueness is each label's mean inverse concurrency",
  "The average uniqueness of a label is the mean, over the bars it spans, of one over the number of labels spanning that bar; it lies in (0, 1] and equals one exactly when the label overlaps no other. The result is indexed like the input, whatever the order of the labels. Inputs with missing end times or duplicated start times are refused with an error.",
  ["inputs"],
  "every set of labels: nested, identical, disjoint, single-bar and very long ones, in any order",
  "One hand-made matrix and one data set are tested; the result is never compared with concurrency counted independently.",
  [M + "bootstrapping.py", T + "sampling/average_uniqueness.py"],
  [("average uniqueness", M + "bootstrapping.py:calc_average_uniqueness"), ("transformer", T + "sampling/average_uniqueness.py:AverageUniqueness")])

P("C13", "Sequential bootstrap draws with probability proportional to uniqueness",
  "At every step the sequential bootstrap draws label i with probability proportional to the average uniqueness that label i would have if it were added to the labels drawn so far. When probabilities are refreshed only every u draws, every block of u draws uses the probabilities given by all the draws before the block. It returns exactly the requested number of draws (by default as many as there are labels), all valid label positions, and the same random state gives the same draws.",
  ["inputs", "histories"],
  "every indicator matrix, requested length, refresh interval and random state, along the whole sequence of draws",
  "Tests compare average uniqueness of a few samples with a standard bootstrap; the probabilities depend on the history of draws, which no test follows.",
  [M + "bootstrapping.py"],
  [("sequential bootstrap", M + "bootstrapping.py:seq_bootstrap"), ("incremental uniqueness", M + "bootstrapping.py:_calc_update_avg_unique")],
  ["the probability vectors handed to the random state", "the draws returned"])

P("C14", "Each bagged estimator is fitted on exactly its sequentially drawn samples",
  "Every base estimator of the bagging classifier is fitted with exactly the samples reported as drawn for it, with multiplicity - as sample weights that are the draw counts multiplied by the user's weights when the estimator supports weights, as repeated rows otherwise - and only on the features reported for it. The number of draws and features follows the configured counts or fractions, and the draws follow the overlap of the labels of the samples fitted, also when fitting on a subset of the labels known to the classifier. The drawn samples the ensemble exposes are the ones used.",
  ["inputs", "configurations"],
  "every data set, subset of labels, weight vector, base estimator with or without weights, integer or fractional sample and feature limits, with and without feature bootstrap and any number of jobs",
  "Tests check only accuracy of fitted classifiers and raised errors; what each estimator was given is never observed.",
  [M + "sequentially_bootstrapped_bagging_classifier.py"],
  [("estimator building", M + "sequentially_bootstrapped_bagging_classifier.py:_parallel_build_estimators"), ("fitting", M + "sequentially_bootstrapped_bagging_classifier.py:SequentiallyBootstrappedBaseBagging._fit")],
  ["fit calls on the base estimators"])

P("C15", "Sequentially bootstrapped bagging is reproducible for any number of jobs",
  "With the same integer random state, fitting gives the same draws, features and predictions whatever the number of jobs and however often it is repeated, also on the same classifier object. Growing an ensemble in several warm-start steps gives the same estimators as fitting the final size at once, and keeps the estimators already there. Predicted probabilities are those of the average of the base estimators and do not depend on the number of jobs.",
  ["configurations", "schedules", "histories"],
  "every data set, ensemble size, sequence of warm-start sizes and number of jobs",
  "Tests fit with one setting each; independence of the number of jobs and of the history of fits needs pairs of runs.",
  [M + "sequentially_bootstrapped_bagging_classifier.py"],
  [("seeds and parallel loop", M + "sequentially_bootstrapped_bagging_classifier.py:SequentiallyBootstrappedBaseBagging._fit")])

P("C16", "Out-of-bag estimates use only estimators that did not see the sample",
  "The out-of-bag decision function of a sample is the normalised sum of the class probabilities (or votes) of exactly those base estimators for which the sample was not drawn, each given its own features. The out-of-bag score is the share of samples whose highest-ranked class is their own. A sample drawn by every estimator gets no estimate, and out-of-bag scoring together with warm start is refused.",
  ["inputs", "configurations"],
  "every data set, number of estimators and draws, feature subset and base estimator",
  "One test looks at the score's rough level; leakage of in-bag votes raises the score and passes it.",
  [M + "sequentially_bootstrapped_bagging_classifier.py"],
  [("OOB score", M + "sequentially_bootstrapped_bagging_classifier.py:SequentiallyBootstrappedBaggingClassifier._set_oob_score")])

P("C17", "Sample weights by returns attribute each bar's return to its active labels",
  "The weight of a label is the absolute value of the sum, over the bars from its start to its end (both included), of the bar's log return divided by the number of labels active at that bar. The first bar, which has no return, contributes nothing. The result is non-negative, indexed like the input, and unchanged when all prices are multiplied by a constant.",
  ["inputs"],
  "every price history and every set of label end times, including single-bar labels and ends beyond or between bars",
  "Tests check shape and sign on one data set; the values are never compared with an independent attribution.",
  [T + "sample_weights/__init__.py"],
  [("weights by returns", T + "sample_weights/__init__.py:SampleWeightsByReturns")])

P("C18", "Time-decay weights are linear in cumulative uniqueness",
  "The time-decay weight of a label is a linear function of the average uniqueness accumulated from the oldest label up to and including it, with the newest label weighing exactly one. For a decay factor c in [0, 1] the line starts at c for zero accumulated uniqueness; for c in (-1, 0) the weight is zero for the oldest share -c of total uniqueness and rises linearly from there. Weights are never negative, never decrease with time, and a factor above one is refused.",
  ["inputs", "configurations"],
  "every set of labels in any order and every decay factor in (-1, 1]",
  "Tests check a few bounds for some factors on one data set, not the line itself.",
  [T + "sample_weights/__init__.py"],
  [("time decay", T + "sample_weights/__init__.py:SampleWeightsByTimeDecay")])

P("C19", "Bet sizes follow the probability formula and stay within zero and one",
  "The bet size for a prediction with probability p among n classes is the absolute value of prediction times (2 N(z) - 1), N being the normal distribution function and z = (p - 1/n) / sqrt(p (1 - p)), multiplied by the primary side in meta-labeling; averaging over active bets and discretisation, when enabled, are applied in that order to the signed values. Every size lies between zero and one, for every p from zero to one included. Sides other than -1, 0 and 1, missing columns, and a step size outside (0, 1) are refused.",
  ["inputs", "configurations"],
  "every probability, prediction in {-1, 0, 1}, number of classes, side and combination of options and column names",
  "Tests cover a handful of configurations on one random data set; the order of operations and the extreme probabilities are not settled by them.",
  [T + "trading/bet_sizing.py"],
  [("bet size", T + "trading/bet_sizing.py:BetSizingFromProbabilities")])

P("C20", "Average active bets average exactly the bets open at each time",
  "The average active signal has one entry for every distinct time at which a bet starts or ends, in time order, equal to the mean signed size of the bets that started at or before that time and end strictly after it. Bets without an end time stay open forever. At times with no open bet the value is zero.",
  ["inputs"],
  "every set of bets: overlapping, nested, open-ended, starting or ending at the same time",
  "The tests use one small example; ties between starts and ends and open bets decide whether a bet counts.",
  [T + "trading/bet_sizing.py"],
  [("average active", T + "trading/bet_sizing.py:avg_active_signals"), ("kernel", T + "trading/bet_sizing.py:_get_avg_active_signals")])

P("C21", "Discretised signals are the nearest multiple of the step, kept within -1 and 1",
  "Discretising a signal gives for every value the nearest multiple of the step size, to three decimals, limited to the range from -1 to 1. Discretisation is monotone and never moves a value within the range by more than half a step (plus the rounding to three decimals). The signal passed in is left unchanged, and step sizes outside (0, 1) are refused.",
  ["inputs"],
  "every signal and every step size in (0, 1)",
  "Tests use a few step sizes and one random signal and check membership only.",
  [T + "trading/bet_sizing.py"],
  [("discretisation", T + "trading/bet_sizing.py:discretise_signal")])

P("C22", "Feature alignment uses only rows up to each target bar and none twice",
  "When features of other data sets are aligned to the target bars, the aligned row of a target bar is the configured aggregate (mean, min or max) of exactly the feature rows later than the previous target bar and not later than this one, or the single row itself. When there are none it repeats the previous aligned row, and it is missing before the first feature row. Rows later than a target bar never influence it, and the target data set's own features are passed through unchanged.",
  ["inputs", "histories"],
  "every pair of time grids (faster, slower, offset, gaps, equal timestamps), every aggregate, features for the primary and the meta-labeling model, and every continuation of the data",
  "Tests align data sets on the same index or one tick data set; boundary timestamps and look-ahead need hand-chosen grids.",
  [M + "pipeline.py"],
  [("alignment", M + "pipeline.py:StrategySignalPipeline._align_on"), ("feature transform", M + "pipeline.py:StrategySignalPipeline.transform")],
  ["the features received by the models", "the data sets created"])

P("C23", "Side and size of a signal come from the configured models",
  "The side of the signal is the primary model's prediction on the aligned features without missing values. Its size is the highest class probability of the primary model, or the meta-labeling model's probability of class one when there is one, or, with a bet sizer, the bet size computed from the most probable class and its probability of that same model (and the primary side in meta-labeling). Only rows for which both exist are returned, each with values computed from its own row.",
  ["inputs", "configurations"],
  "every combination of primary and meta-labeling model, bet sizer, meta-labeling features (predictions, probabilities), class order, warm-up periods and data sets",
  "Tests compare a few configurations with one classifier and aligned data; swapped classes, shifted rows or a wrong source show only for other combinations.",
  [M + "pipeline.py"],
  [("side and size", M + "pipeline.py:StrategySignalPipeline.get_side_and_size"), ("predictions", M + "pipeline.py:StrategySignalPipeline.predict"), ("meta-labeling features", M + "pipeline.py:StrategySignalPipeline._get_features_for_metalabeling")])

P("C24", "Training sets pair every row's features with its own label",
  "The primary data set holds exactly the target bars that have a label and no missing feature, each with its own features and label. The meta-labeling data set holds the rows of those that also have complete meta-labeling features, with the primary model's prediction and class probabilities for that row appended as configured, and a label that is one exactly when the primary model's prediction equals the row's label and zero otherwise. Labels outside {-1, 0, 1} are refused.",
  ["inputs", "configurations"],
  "every pattern of missing features and labels, label order, feature sources and options",
  "Tests check only the types of the two data sets.",
  [M + "pipeline.py"],
  [("primary data set", M + "pipeline.py:StrategySignalPipeline.create_dataset_primary"), ("meta-labeling data set", M + "pipeline.py:StrategySignalPipeline.create_dataset_metalabeling"), ("alignment with labels", M + "pipeline.py:StrategySignalPipeline._align_X_dict_and_y")])

P("C25", "Positions carry the right stops for every bar and validate the signal",
  "The positions of the trader contain for every target bar stop loss and profit taking equal to their factors times the bar's daily volatility (or the factors themselves without volatility adjustment), the configured number of expiration bars, and the side and size of the signal for that bar. The strategy is marked valid exactly when every size of the last signal lies in [0, 1] and every side in [-1, 1]. Data with duplicated timestamps is refused, the caller's data is not modified, and repeating a call gives the same positions.",
  ["inputs", "configurations", "histories"],
  "every price history, factors, horizon and signal, every sequence of calls on the same data",
  "Tests compare one strategy on one data set and call it once.",
  [M + "pipeline.py"],
  [("positions", M + "pipeline.py:StrategyTrader.create_position"), ("strategy bars", M + "pipeline.py:StrategyTrader.create_strategy_bars"), ("validation", M + "pipeline.py:StrategyTrader._check_signal_has_valid_output")])

P("C26", "The closing-positions model decides which positions are closed",
  "When a closing-positions model is configured, it is called exactly once with the data given and its answer (all, long, short or none) is what the pipeline and the trader return. Any other answer is refused with an error. Without such a model nothing is closed.",
  ["inputs", "histories"],
  "every answer of the model and every sequence of calls",
  "One test covers the case without a usable answer, so a model that is never asked passes.",
  [M + "pipeline.py"],
  [("closing decision", M + "pipeline.py:StrategySignalPipeline.determine_positions_to_close"), ("trader", M + "pipeline.py:StrategyTrader.determine_positions_to_close")])

P("C27", "SADF statistics equal the supremum of OLS t-statistics over start points",
  "For every end point t from the minimum length on, the reported statistic is the largest t-statistic of the tested coefficient over ordinary least squares regressions ending at t and starting at every point that leaves at least the minimum length of observations; the regressors are those of the chosen specification (lagged level, lagged differences for the number or list of lags, constant and trends, or the sub/super-martingale trends). For the sub/super-martingale specifications it is the largest absolute t-statistic divided by the number of periods between start and end (the end position minus the start position) to the power phi. Start points whose regression is not identified (for example a regressor that is zero throughout) have no t-statistic and are left out; an end point without any has no value. The value at t depends only on data up to t, and unknown specifications and phi outside [0, 1] are refused.",
  ["inputs", "configurations"],
  "every price series, also with stretches without any move, all seven specifications, every number or list of lags, minimum length, constant flag and phi",
  "Tests check shape, index and finiteness for one series; the values are not compared with independent regressions.",
  [SB + "sadf.py", SB + "sdfc.py"],
  [("inner loop", SB + "sadf.py:_get_sadf_at_t"), ("design matrices", SB + "sadf.py:_get_X_y"), ("outer loop", SB + "sadf.py:_sadf_outer_loop"), ("OLS", SB + "sdfc.py:get_beta_and_beta_var")])

P("C28", "The Chow-type Dickey-Fuller statistic is the OLS t-value at each break date",
  "For each candidate break position from the minimum number of samples up to the series length minus that number, the statistic is the t-value of the coefficient in the regression without intercept of the price change on the lagged price switched on only from that position on (the first that many changes having a zero regressor). A position whose coefficient is not identified (zero regressor, or no price change at all) has no value. The result is indexed by the bars at those positions. Multiplying the series by a positive constant leaves it unchanged.",
  ["inputs", "configurations"],
  "every price series and minimum number of samples",
  "Tests check length and finiteness on one series.",
  [SB + "sdfc.py"],
  [("DFC loop", SB + "sdfc.py:get_dfc_array"), ("OLS", SB + "sdfc.py:get_beta_and_beta_var")])

P("C29", "The Chu-Stinchcombe-White statistic is the supremum over reference points",
  "At every bar t from the second on, the statistic is the largest value over earlier bars n of the departure y_t - y_n (its negative, or its absolute value, as the chosen side says) divided by sigma_t times the square root of t - n, where sigma_t squared is the sum of squared changes up to t divided by t - 1. The critical value is the square root of 4.6 plus the logarithm of t - n at the first n attaining the maximum. As long as the series has not changed at all there is no finite statistic and no critical value. Values at t depend only on data up to t and the side specification is validated.",
  ["inputs", "configurations"],
  "every series and the three sides",
  "Tests check sign relations and length on one series.",
  [SB + "cusum_chu_stinchcome_white.py"],
  [("test statistic", SB + "cusum_chu_stinchcome_white.py:get_test_statistics_array")])

P("C30", "Parallel kernels give the same result for every thread count and schedule",
  "The results of all parallel compiled computations (barrier touches, average active bets, trend scanning and the three structural break tests) are the same for every number of threads, on every repetition, also when several run at the same time, and equal to what the same code computes when interpreted sequentially. No result depends on the previous content of memory, also where single regressions are singular. No array access is out of bounds.",
  ["schedules", "inputs", "configurations"],
  "every input, number of threads, chunking of the parallel loops, memory content and concurrent use",
  "Tests run once with the default number of threads; a race or uninitialised read shows only under other schedules or memory contents.",
  [T + "targets/labeling.py", T + "targets/trend_scanning.py", T + "trading/bet_sizing.py", SB + "sadf.py", SB + "sdfc.py", SB + "cusum_chu_stinchcome_white.py"],
  [("barrier kernel", T + "targets/labeling.py:get_horizontal_barriers_hit"), ("active bets kernel", T + "trading/bet_sizing.py:_get_avg_active_signals"), ("trend kernel", T + "targets/trend_scanning.py:_trend_scan_each_index"), ("SADF kernel", SB + "sadf.py:_sadf_outer_loop"), ("SDFC kernel", SB + "sdfc.py:get_dfc_array"), ("CSW kernel", SB + "cusum_chu_stinchcome_white.py:get_test_statistics_array")])

P("C31", "Microstructural features equal their published estimators at every bar",
  "Roll measure and impact, Parkinson and Beckers-Parkinson volatility, the Corwin-Schultz spread, Kyle's, Amihud's and Hasbrouck's lambda and VPIN equal, at every bar with a full window, their textbook formulas over the trailing window (volatilities and spreads never negative, VPIN between zero and one when buy and sell volumes make up the volume). Bars without a full window have no value. The output has one row per input bar for the configured columns, and missing columns are refused.",
  ["inputs", "configurations"],
  "every bar series with positive prices and volumes, every window and column naming",
  "Tests compare with stored or re-coded results on one data set with one or two windows.",
  [T + "microstructural_features/first_generation.py", T + "microstructural_features/second_generation.py", T + "microstructural_features/vpin.py"],
  [("first generation", T + "microstructural_features/first_generation.py"), ("second generation", T + "microstructural_features/second_generation.py"), ("VPIN", T + "microstructural_features/vpin.py:VPIN")])

P("C32", "Crossover features and strategies signal exactly when their rule says",
  "The moving-average crossover is 1 (or -1) exactly at bars where the fast average is above (below) the slow one and was not on the previous bar, zero elsewhere, or the last crossover's value when filling between crossovers; the MACD crossover is half the change of the sign of the MACD histogram, and the averaged-difference and volume-imbalance features equal their formulas. The mean-reversion, RSI-confirmation and bar-arrival strategies signal exactly at bars where all their conditions on the trailing data hold. Each strategy's class probabilities are one for its prediction's class and zero for the others, in the order of its classes.",
  ["inputs", "configurations"],
  "every price, volume and bar time series including ties and constant stretches, and every period and threshold",
  "Tests use one data set and a few periods; ties between the averages and the first bars after the warm-up decide the signal.",
  [T + "technical/moving_average.py", T + "technical/macd.py", T + "technical/mean_reversion.py", T + "technical/rsi.py", T + "technical/volume.py"],
  [("MA crossover", T + "technical/moving_average.py:MovingAverageCrossOver"), ("MACD", T + "technical/macd.py:MACDHistogramCrossOver"), ("mean reversion", T + "technical/mean_reversion.py:MeanReversionStrategy"), ("RSI", T + "technical/rsi.py"), ("imbalance", T + "technical/volume.py:BuySellImbalance")])

P("C33", "Generated indicator transformers compute their TA-Lib function",
  "For every function TA-Lib offers, a transformer made by the factory returns, with one row per input row, exactly what the TA-Lib function returns for the configured columns in the function's input order and the configured parameters, several outputs becoming columns in output order. Column mappings and single or paired input columns select the data used. Unknown functions, parameters or columns, missing column choices and inputs that are not data frames are refused with an error.",
  ["inputs", "configurations"],
  "every TA-Lib function, parameter setting, column choice and mapping and every price history",
  "Tests check shapes and errors with default parameters; values for swapped columns or ignored parameters are not compared.",
  [T + "technical/factory.py"],
  [("factory", T + "technical/factory.py:TAFactory.create_transformer"), ("argument handling", T + "technical/factory.py:TAFactory._check_and_set_args")])

P("C34", "No transformer or model changes its input or remembers earlier calls",
  "Transforming, labeling, weighting, filtering, testing or predicting never modifies the data passed in, including its column set, values, index and dtypes. Calling the same object again on the same data gives the same result, also after it has been used on other data. The result is the same as that of a new object with the same configuration.",
  ["histories", "inputs"],
  "every public transformer, labeler, filter, statistical test, strategy and pipeline, every data set and every sequence of calls",
  "Tests use fresh fixtures for every call and rarely look at the input afterwards.",
  [T, SB, M + "pipeline.py"],
  [("transformers", T), ("structural break tests", SB), ("strategy pipeline", M + "pipeline.py")])

P("C35", "Features never look ahead",
  "The value a feature transformer or technical strategy gives a bar depends only on that bar and earlier ones: it is the same when later bars are removed, appended or replaced by arbitrary values. This holds for all microstructural, technical, rolling and generated indicator features and for the signal of a strategy pipeline built from them. Bars in the warm-up period have no value (or a zero signal) whatever follows.",
  ["inputs", "histories"],
  "every feature and strategy, history, cut point and continuation",
  "No test compares a feature on a history with the same feature on its continuation.",
  [T + "microstructural_features", T + "technical", T + "features", M + "pipeline.py"],
  [("microstructural features", T + "microstructural_features"), ("technical features", T + "technical"), ("rolling features", T + "features"), ("strategy pipeline", M + "pipeline.py:StrategySignalPipeline")])

P("C36", "Rolling z-scores and ratios equal their trailing-window definition",
  "The rolling z-score of a bar is its series value minus the mean of the trailing window ending at the bar, divided by that window's sample standard deviation; the predefined series are the time since the previous bar, buy minus sell volume, average buy size and high over low. The local-maximum ratio is the highest high of the trailing window over the close. Bars without a full window of values, or whose window does not vary, have no z-score, the output is one column with a row per bar, and unknown names are refused.",
  ["inputs", "configurations"],
  "every bar series, window and predefined or user-supplied series",
  "Tests check one series with one window.",
  [T + "features/rolling_z_score.py", T + "features/custom.py"],
  [("z-score", T + "features/rolling_z_score.py:RollingZScoreTransformer"), ("factory", T + "features/rolling_z_score.py:RollingZScoreTransformerFactory"), ("local max ratio", T + "features/custom.py:LocalMaxToCloseRatio")])

P("C37", "Pipelines pass sample weights to the last step and unions keep the index",
  "A pipeline fitted with sample weights hands exactly these weights to its final step and to no other, together with that step's other fit parameters, and without weights hands over none. A feature union returns a data frame with the index of its input whose columns are its transformers' outputs side by side, in order, the same for transforming and for fitting and transforming at once. The pipeline's predictions are those of the final step on the transformed features.",
  ["inputs", "configurations"],
  "every sequence of steps, weights, fit parameters and transformers",
  "Tests use the pipelines with one fixed set of features; where weights and rows go is not observed.",
  [M + "pipeline.py"],
  [("pipeline", M + "pipeline.py:MizarPipeline"), ("feature union", M + "pipeline.py:MizarFeatureUnion")],
  ["fit calls on the steps"])

P("C38", "Results follow the data in time: shifts and time zones change no value",
  "Moving all times of the data by the same number of milliseconds moves the times of the result by as much and changes no value, for labels, filters, uniqueness, sample weights, bet sizes, structural break tests, features, cross-validation splits, bagging and strategy signals. Data whose times carry a time zone give the values of the same instants without one, whatever the zone and across changes of daylight saving, and times in the result carry the zone of the data. Triple-barrier labeling refuses times with a zone.",
  ["inputs", "configurations"],
  "every component, data set, shift (dates after 1970) and time zone",
  "Tests use a handful of fixed dates without time zone.",
  [T, SB, M, "mizarlabs/static.py"],
  [("labels", T + "targets"), ("bet sizing", T + "trading/bet_sizing.py"), ("break tests", SB), ("cross-validation", M + "model_selection.py")])

P("C39", "A copy of a component behaves like the original",
  "A deep copy of a component, or one that was serialized and restored (as joblib does it), gives the same results as the original and as a new object with the same configuration, whether the original had been used before or not, and using the copy does not change what the original does. A scikit-learn clone of an estimator has the same parameters and gives the same results; changing a parameter of a clone leaves the original alone.",
  ["configurations", "histories"],
  "every component, configuration, moment of copying and order of use",
  "No test copies, clones or serializes a component except where scikit-learn does it by itself.",
  [T, SB, M],
  [("transformers", T), ("bagging", M + "sequentially_bootstrapped_bagging_classifier.py"), ("strategy pipeline", M + "pipeline.py")])

P("C40", "Transformers use the columns they were told to use and no others",
  "The result of a transformer, strategy, indicator, labeler, sample weight or bet sizer does not depend on the order of the columns of the data frame, on additional columns, or on the values of columns it does not need. When a column it needs is missing it refuses the data instead of returning something else. (Triple-barrier labeling without meta-labeling treats a missing side column as long positions.)",
  ["inputs", "configurations"],
  "every component, data frame, column order, additional and missing column",
  "Tests use frames with exactly the columns that are needed, in one order.",
  [T, "mizarlabs/transformers/utils.py"],
  [("features", T), ("column check", T + "utils.py:check_missing_columns"), ("labels", T + "targets/labeling.py"), ("bet sizing", T + "trading/bet_sizing.py")])

P("C41", "Log-uniform search draws are log-uniform and within bounds",
  "log_uniform(a, b) is a distribution on [a, b] whose logarithm is uniform: its distribution function is log(x/a)/log(b/a), its quantiles are a*(b/a)^q, every draw lies within the bounds, the draws follow that distribution and are determined by the random state. Without bounds it covers 1 to e.",
  ["inputs", "configurations"],
  "every pair of positive bounds and random state",
  "No test draws from the distribution.",
  [M + "model_selection.py"],
  [("log_uniform", M + "model_selection.py:log_uniform"), ("distribution", M + "model_selection.py:LogUniformGen")])

P("C42", "The unit of money or of the asset does not matter",
  "Expressing the same market in another unit of money or of the asset (prices, base and quote volumes multiplied accordingly) leaves labels, their returns and end times, trend t-values, filtered events (with the threshold in the same unit), sample weights, structural break statistics, volatilities, spreads, VPIN, rolling z-scores, ratios and crossover signals as they are, and multiplies Roll's measure and impact and the lambdas of Kyle, Amihud and Hasbrouck by the power of the factors in their definition. The buy-sell imbalance and the normalised moving average difference, which add one to what they divide by, and general TA-Lib indicators are not included.",
  ["inputs", "configurations"],
  "every component, data set and pair of units",
  "Tests use the prices of a few fixtures, all of the same size.",
  [T, SB],
  [("labels", T + "targets"), ("microstructural features", T + "microstructural_features"), ("technical strategies", T + "technical"), ("break tests", SB), ("filter and weights", T + "sampling")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for d in OUT:
            f.write(json.dumps(d) + "\n")
    print(len(OUT), "properties")
