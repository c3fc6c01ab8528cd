"""Writes KNOWN_FINDINGS.jsonl: one line per repaired defect and per open one."""
import json
import subprocess
F = [
    ("C01", "reaches the end of the data", "the embargo was not applied when it reached past the last sample"),
    ("C02", "embargo only after", "the embargo after one test block dropped training samples because of other test blocks"),
    ("C03", "number of backtest", "more backtest paths than predictions were requested with two or more test groups (IndexError)"),
    ("C14", "np.float", "bagging failed: np.float no longer exists"),
    ("C33", "untyped signature", "TAFactory could not read the signatures of TA-Lib functions"),
    ("C23", "only string column names in", "meta-labeling with int column names next to prediction features was refused by scikit-learn"),
    ("C26", "closing positions model", "the closing positions model was never asked"),
    ("C25", "strategy bars columns", "create_strategy_bars added columns to the caller's data frame"),
    ("C19", "average active bets", "average_active with a custom bet_size_column_name raised an error"),
    ("C09", "events of the first series", "the trend scanner kept the events of the first series it saw"),
    ("C08", "accept timestamps", "the trend scanner refused pandas Timestamps as events"),
    ("C08", "uninitialised t values", "step > 1 let the trend scanner pick uninitialised memory as the best t value"),
    ("C08", "perfect fit", "a window fitted perfectly by a line ended the trend scanner with a division by zero"),
    ("C27", "penalize the SMT", "the SMT statistic was penalized by the wrong sample length"),
    ("C27", "list of lags", "SADF with a list of lags raised an error"),
    ("C04", "custom side column", "triple barrier labeling ignored or refused a custom side column name"),
    ("C11", "full of ones", "an indicator matrix consisting of ones only was refused"),
    ("C14", "estimators_samples_", "estimators_samples_ did not return the samples that were drawn"),
    ("C04", "no event has an end time", "labeling data in which no event has an end time raised an error"),
    ("C16", "drawn every sample", "the out-of-bag score failed when an estimator had drawn every sample"),
    ("C16", "out-of-bag votes", "out-of-bag votes of estimators that have not seen every class went to the wrong classes"),
    ("C23", "without n_classes_", "primary models without n_classes_ could not be used for meta-labeling"),
    ("C24", "without probabilities", "predictions without probabilities could not be used as meta-labeling features"),
    ("C37", "hand the labels", "MizarFeatureUnion.fit_transform dropped the labels"),
    ("C37", "rolling features be fitted", "rolling features had no fit and could not be part of a pipeline"),
    ("C24", "mix int and str", "data sets whose columns mix int and str names were refused"),
    ("C30", "undefined memory where", "singular regressions (idle stretches) made SADF and the Chow-type test return undefined memory, differing by thread schedule"),
    ("C38", "zone-aware series", "trend scanning of a series with time zone gave every event a NaN label"),
    ("C38", "Chow-type statistics keep", "Chow-type statistics of a series with time zone were returned at times without zone"),
    ("C38", "bet sizes keep the time zone", "averaged active bet sizes of bets with time zone were returned at times without zone"),
    ("C31", "VPIN of fewer bars", "VPIN raised an error on fewer bars than its window"),
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--oneline", "--grep=^fix:"], text=True).splitlines()]
out = []
used = set()
for pid, key, what in F:
    m = [h for h, t in log if key in t]
    assert len(m) == 1, (key, m)
    used.add(m[0])
    out.append(f"fixed: property={pid} {m[0]} {what}")
assert used == {h for h, _ in log}, [l for l in log if l[0] not in used]
for cls in ["AverageUniqueness", "BetSizingFromProbabilities", "CUSUMFilter", "MACDHistogramCrossOver", "MovingAverageCrossOver",
            "MovingAverageCrossOverPredictor", "SampleWeightsByReturns", "SampleWeightsByTimeDecay", "TripleBarrierMethodLabeling"]:
    out.append(json.dumps(dict(
        property="C39", status="open", id="clone-" + cls, kind="copy-clone", where=f"class={cls}:",
        what=f"sklearn.base.clone({cls}(...)), get_params and repr raise AttributeError: the constructor stores parameters under other names")))
open("/verif/KNOWN_FINDINGS.jsonl", "w").write("\n".join(out) + "\n")
