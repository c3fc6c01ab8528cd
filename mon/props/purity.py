"""C34, C35: no hidden state, no changed inputs, no look-ahead."""
import numpy as np
import pandas as pd

from mon import estimators as est
from mon import gen
from mon.core import StopCase, prop
from mon.props import bagging, bets, breaks, features, labels, sampling, trend
from mon.props.pipeline import World


# -- comparing outcomes ----------------------------------------------------

def copy(o):
    """A deep copy of results: data, containers and sparse matrices."""
    if hasattr(o, "toarray"):
        return ("sparse", o.toarray())
    if isinstance(o, (list, tuple)):
        return [copy(x) for x in o]
    if isinstance(o, dict):
        return {k: copy(v) for k, v in o.items()}
    return gen.snapshot(o)


def _floats(a, b):
    """Equal up to rounding of the last bits."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.allclose(a, b, rtol=1e-11, atol=0, equal_nan=True))
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        return all((x is y) or bool(x == y) or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "mM":
        return a.dtype == b.dtype and bool(np.array_equal(a.astype(np.int64), b.astype(np.int64)))
    return bool(np.array_equal(a, b))


def alike(a, b):
    if failed(a) and failed(b):
        return True  # refused, with whichever error
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and a.columns.equals(b.columns) and a.index.equals(b.index)
                and (a.dtypes == b.dtypes).all() and all(_floats(a.iloc[:, j].values, b.iloc[:, j].values) for j in range(a.shape[1])))
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.index.equals(b.index) and a.dtype == b.dtype and a.name == b.name and _floats(a.values, b.values)
    if isinstance(a, pd.Index):
        return isinstance(b, pd.Index) and a.equals(b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and _floats(a, b)
    if isinstance(a, float):
        return isinstance(b, float) and _floats(a, b)
    if a is None or b is None:
        return a is b
    return bool(a == b)


def outcome(fn):
    try:
        return copy(fn())
    except Exception as e:
        return {"error": type(e).__name__}


def failed(r):
    return isinstance(r, dict) and list(r) == ["error"]


# -- components ------------------------------------------------------------

class Thing:
    """A component: how to configure it, how to use it and on what."""

    def __init__(self, name, make, use, data, other, config=None):
        self.name, self.make, self.use = name, make, use
        self.data, self.other = data, other
        self.config = config if config is not None else {}


def _frame(rng, lo=25, hi=110, missing=0.12):
    n = int(rng.integers(260, 650)) if rng.random() < 0.12 else None
    X, _ = features._bars(rng, n, lo=lo, hi=hi)
    X["num_buy_ticks"] = X["num_buy_ticks"].clip(lower=1) if "num_buy_ticks" in X else 2
    for c in ("quote_asset_buy_volume", "quote_asset_sell_volume"):
        if c not in X:
            X[c] = rng.uniform(1, 100, len(X))
    r = rng.random()
    if r < missing:
        X = features.holes(rng, X, [c for c in X.columns if c != "num_buy_ticks"])
    if rng.random() < 0.3:  # bars without trades, or with one side only
        for c in [c for c in X.columns if c.endswith("_volume")]:
            if rng.random() < 0.7:
                X[c] = np.where(rng.random(len(X)) < 0.08, 0.0, X[c])
    if rng.random() < 0.15:  # a stretch without a price change
        i = int(rng.integers(len(X)))
        j = i + int(rng.integers(2, 30))
        for c in ("open", "high", "low", "close"):
            if c in X:
                X.iloc[i:j, X.columns.get_loc(c)] = X[c].iloc[i]
    return X


def nearly(rng, x):
    """Data of the same shape, index, first and last rows, but other values in between."""
    if isinstance(x, dict):
        return {k: nearly(rng, v) for k, v in x.items()}
    if not isinstance(x, (pd.DataFrame, pd.Series)) or len(x) < 3:
        return x
    y = x.copy()
    a = int(rng.integers(1, max(2, len(x) // 3)))
    b = int(gen.pick(rng, len(x) - 1, rng.integers(a + 1, len(x))))
    f = 1 - 0.1 * rng.random(max(0, b - a))
    if isinstance(x, pd.Series):
        if x.dtype.kind == "f":
            y.iloc[a:b] = x.values[a:b] * f
        return y
    for j, d in enumerate(x.dtypes):
        if d.kind == "f":
            v = x.iloc[:, j].values.copy()
            v[a:b] *= f
            y[x.columns[j]] = v
    return y


def _frames(rng, lo=25):
    a, b = _frame(rng, lo), _frame(rng, lo)
    cols = [c for c in a.columns if c in b.columns]
    if rng.random() < 0.3:  # the other data also differ in columns and their order
        b = b[list(rng.permutation(cols))]
    if rng.random() < 0.3:
        a["note"] = np.array(["x", "y"] * len(a))[: len(a)]
    if rng.random() < 0.2:
        a.index.name = "when"
    return a, b


def _methods(o):
    return [m for m in ("transform", "fit_transform", "predict", "predict_proba") if hasattr(o, m)]


def feature(rng, restrict=None):
    """A drawn feature transformer or technical strategy: (name, make, config, warm-up)."""
    from mizarlabs.transformers.features import LocalMaxToCloseRatio, RollingZScoreTransformer, RollingZScoreTransformerFactory
    from mizarlabs.transformers.microstructural_features import first_generation as fg
    from mizarlabs.transformers.microstructural_features import second_generation as sg
    from mizarlabs.transformers.microstructural_features.vpin import VPIN
    from mizarlabs.transformers.technical.factory import TAFactory
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.moving_average import (
        ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver, MovingAverageCrossOverPredictor)
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    from mizarlabs.transformers.technical.volume import BuySellImbalance
    import talib

    w = int(rng.integers(2, 15))
    fast = int(rng.integers(1, 6))
    slow = fast + int(rng.integers(0, 10))
    kind = restrict or gen.pick(rng, "micro", "micro", "technical", "technical", "ta", "rolling")
    if kind == "micro":
        cls, warm = gen.pick(
            rng, (fg.RollMeasure, w + 1), (fg.RollImpact, w + 1), (fg.ParkinsonVolatility, w - 1), (fg.CorwinSchultzSpread, w),
            (fg.BeckersParkinsonVolatility, w), (sg.KyleLambda, w), (sg.AmihudLambda, w), (sg.HasbrouckLambda, w), (VPIN, w - 1))
        return cls.__name__, (lambda: cls(window=w)), {"window": w}, warm
    if kind == "rolling":
        k = gen.pick(rng, "bar_arrival_time", "buy_sell_diff", "average_buy_size", "high_to_low_ratio", "own", "local")
        if k == "local":
            return k, (lambda: LocalMaxToCloseRatio(w)), {"window": w}, w - 1
        if k == "own":
            return k, (lambda: RollingZScoreTransformer(w, _mid)), {"window": w}, w - 1
        return k, (lambda: RollingZScoreTransformerFactory.get_transformer(k, w)), {"window": w}, w - 1
    if kind == "ta":
        name = gen.pick(rng, *sorted(talib.get_functions()))
        ins = features.ta_inputs(name)
        real = [i for i in ins if i in ("real", "price", "price0", "price1", "real0", "real1")]
        args = dict(func_name=name)
        if len(real) == 2:
            args["col_to_transform"] = ["close", "high"]
        elif len(real) == 1:
            args["col_to_transform"] = "unit" if name in ("ACOS", "ASIN", "EXP", "COSH", "SINH") else gen.pick(rng, "close", "base_asset_volume")
        params = {k: v for k, v in features.ta_parameters(rng, name, 24).items()}
        if params:
            args["kw_args"] = params
        if "volume" in ins:
            args["col_to_transform_mapping"] = {"volume": "base_asset_volume"}
        fac = TAFactory()
        return "TA " + name, (lambda: fac.create_transformer(**args)), args, 0
    c = int(rng.integers(9))
    if c == 0:
        f = bool(rng.random() < 0.5)
        return "MovingAverageCrossOver", (lambda: MovingAverageCrossOver(fast, slow, "close", f)), {}, slow
    if c == 1:
        f = bool(rng.random() < 0.5)
        return "MovingAverageCrossOverPredictor", (lambda: MovingAverageCrossOverPredictor(fast, slow, "close", f)), {}, slow
    if c == 2:
        f = bool(rng.random() < 0.5)
        return "ExponentialWeightedMovingAverageDifference", (lambda: ExponentialWeightedMovingAverageDifference(fast, slow, "close", f)), {}, 0
    if c == 3:
        v = gen.pick(rng, "quote", "base")
        return "BuySellImbalance", (lambda: BuySellImbalance(fast, slow, v)), {}, 0
    if c == 4:
        a, b, s = int(rng.integers(2, 5)), int(rng.integers(5, 9)), int(rng.integers(2, 5))
        return "MACDHistogramCrossOver", (lambda: MACDHistogramCrossOver(a, b, s)), {}, b - 1 + s - 1
    if c == 5:
        t = float(rng.uniform(0, 0.02))
        p = int(rng.integers(2, 10))
        return "MeanReversionStrategy", (lambda: MeanReversionStrategy(threshold=t, short_time_period=p)), {}, p - 1
    if c == 6:
        lim, p, q, m = float(rng.uniform(30, 95)), int(rng.integers(2, 10)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        return "RSIConfirmation", (lambda: RSIConfirmation(rsi_timeperiod=p, rsi_threshold=lim, rsi_confirmation_period=q, rsi_moving_average_window=m)), {}, p
    if c == 7:
        p = int(rng.integers(2, 8))
        kw = dict(rsi_upper_threshold=float(rng.uniform(50, 99)), rsi_lower_threshold=float(rng.uniform(1, 50)), bar_arrival_upper_threshold=float(rng.normal(0, 5)) + 3,
                  bar_arrival_lower_threshold=-10.0, rsi_timeperiod=p, bar_arrival_fast_period=fast, bar_arrival_slow_period=slow,
                  max_bar_arrival_mean_diff=gen.pick(rng, 10**9, 10**12))
        return "BarArrivalRSIStrategy", (lambda: BarArrivalRSIStrategy(**kw)), kw, max(p, slow, fast)
    from mizarlabs.model.pipeline import MizarFeatureUnion

    parts = [feature(rng, gen.pick(rng, "micro", "ta")) for _ in range(int(rng.integers(1, 4)))]
    return "union of " + " + ".join(p[0] for p in parts), (lambda: MizarFeatureUnion([(str(i), p[1]()) for i, p in enumerate(parts)])), {}, min(p[3] for p in parts)


def _mid(b):
    return (b["high"] + b["low"]) / 2


def _with_inputs(rng, X):
    """Columns for every TA-Lib function."""
    X = X.copy()
    X["periods"] = rng.integers(2, 10, len(X)).astype(float)
    X["unit"] = rng.uniform(-0.99, 0.99, len(X))
    num = [c for c in X.columns if X[c].dtype.kind in "iu"]
    X[num] = X[num].astype(float)
    return X


def thing_feature(case):
    rng = case.rng
    name, make, config, _ = feature(rng)
    a, b = _frames(rng)
    a, b = _with_inputs(rng, a), _with_inputs(rng, b)
    if "note" in a and name == "VPIN":
        a = a.drop(columns="note")  # rolls over all columns
    if rng.random() < 0.06:  # bars that are not in time order
        a = a.iloc[rng.permutation(len(a))]
    m = gen.pick(rng, *_methods(make()))
    if m == "fit_transform" and name.startswith("union"):
        use = lambda o, X: o.fit_transform(X)
    elif m in ("predict", "predict_proba"):
        use = lambda o, X: getattr(o, m)(X)
    else:
        use = lambda o, X: getattr(o, m)(X)
    return Thing(f"{name}.{m}", make, use, a, b, config)


def thing_labels(case):
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling, get_daily_vol

    rng = case.rng
    y, args, _, _ = labels.draw(case)
    other = y.copy()
    c = args["close_column_name"]
    other[c] = other[c] * np.exp(rng.normal(0, 0.1, len(y)))
    other = other.iloc[: int(rng.integers(2, len(y) + 1))]
    if rng.random() < 0.2:
        return Thing("get_daily_vol", lambda: args["volatility_window"], lambda s, x: get_daily_vol(x, s), y[c], other[c])
    m = gen.pick(rng, "transform", "fit_transform")
    return Thing("TripleBarrierMethodLabeling." + m, lambda: TripleBarrierMethodLabeling(**args), lambda o, x: getattr(o, m)(x), y, other, args)


def thing_trend(case):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

    rng = case.rng
    n = int(rng.integers(12, 70)) if rng.random() < 0.85 else int(rng.integers(260, 520))
    y = pd.Series(gen.prices(rng, n, "walk") * 10.0 ** rng.integers(-3, 4), index=gen.time_index(rng, n))
    L = int(rng.integers(4, 11))
    cfg = dict(look_forward_window=L, min_sample_length=int(rng.integers(3, L)), step=int(rng.integers(1, 4)))
    other = pd.Series(y.values[::-1] * np.exp(rng.normal(0, 0.02, n)), index=y.index)
    if rng.random() < 0.5:
        pos = np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False))
        cfg["t_events"] = gen.pick(rng, y.index[pos], y.index.values[pos], list(y.index[pos]))
    return Thing("TrendScannerLabeling", lambda: TrendScannerLabeling(**cfg), lambda o, x: o.transform(x), y, other, cfg)


def thing_sampling(case):
    from mizarlabs.model import bootstrapping as bs
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

    rng = case.rng
    k = gen.pick(rng, "cusum", "uniqueness", "matrix", "average", "bootstrap", "bootstrap")
    if k == "cusum":
        s = [pd.Series(gen.prices(rng, n), index=gen.time_index(rng, n)) for n in rng.integers(2, 60, 2)]
        thr = float(rng.uniform(0.001, 3)) * float(np.abs(np.diff(s[0].values)).mean() + 1e-9)
        return Thing("CUSUMFilter", lambda: CUSUMFilter(thr), lambda o, x: o.transform(x), *s)
    d = []
    for _ in range(2):
        ends, index, _ = sampling.draw_labels(rng, unique=True)
        d.append((ends, pd.DataFrame({"close": gen.prices(rng, len(index))}, index=index)))
    if k == "uniqueness":
        fr = [e.to_frame(sampling.END) for e, _ in d]
        for f in fr:
            f["close"] = gen.prices(rng, len(f))
        return Thing("AverageUniqueness", AverageUniqueness, lambda o, x: o.transform(x), *[f.sort_index() for f in fr])
    if k == "matrix":
        return Thing("get_ind_matrix", lambda: None, lambda o, x: bs.get_ind_matrix(x[0], x[1], sampling.END), *d)
    mats = [bs.get_ind_matrix(e, b, sampling.END).tocsc() for e, b in d]
    wrap = [[m.data, m.indices, m.indptr, m] for m in mats]
    if k == "average":
        return Thing("calc_average_uniqueness", lambda: None, lambda o, x: bs.calc_average_uniqueness(x[3]), *wrap)
    seed = int(rng.integers(0, 2**31))
    kw = dict(sample_length=int(rng.integers(1, 12))) if rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        kw["warmup_samples"] = [0]
    return Thing("seq_bootstrap", lambda: None, lambda o, x: bs.seq_bootstrap(x[3], random_state=np.random.RandomState(seed), **kw), *wrap, config=kw)


def thing_weights(case):
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay

    rng = case.rng
    fr = []
    for _ in range(2):
        n = int(rng.integers(2, 50))
        ix = gen.time_index(rng, n)
        e = ix[np.minimum(n - 1, np.arange(n) + rng.integers(0, 9, n))]
        fr.append(pd.DataFrame({sampling.END: e, "close": gen.prices(rng, n), "x": rng.normal(size=n)}, index=ix))
    if rng.random() < 0.5:
        return Thing("SampleWeightsByReturns", SampleWeightsByReturns, lambda o, x: o.transform(x), *fr)
    d = float(rng.choice([1.0, 0.5, 0.0, -0.4]))
    return Thing("SampleWeightsByTimeDecay", lambda: SampleWeightsByTimeDecay(d), lambda o, x: o.transform(x), *fr)


def thing_bets(case):
    from mizarlabs.transformers.trading import bet_sizing as bz

    rng = case.rng
    d = []
    for _ in range(2):
        index, ends, _ = bets.draw_bets(rng)
        n = len(index)
        d.append(pd.DataFrame({"prob": rng.uniform(0.3, 0.99, n), "pred": rng.choice([-1, 0, 1], n), "side": rng.choice([-1, 0, 1], n),
                               "bet_size": rng.uniform(-1, 1, n), "event_end_time": ends.values}, index=index))
    k = gen.pick(rng, "sizer", "sizer", "active", "discretise")
    if k == "sizer":
        kw = dict(num_classes=int(rng.integers(2, 4)), average_active=bool(rng.random() < 0.4), meta_labeling=bool(rng.random() < 0.5))
        if rng.random() < 0.5:
            kw.update(discretise=True, step_size=float(rng.uniform(0.05, 0.5)))
        m = gen.pick(rng, "transform", "transform")
        return Thing("BetSizingFromProbabilities", lambda: bz.BetSizingFromProbabilities(**kw), lambda o, x: getattr(o, m)(x), *d, config=kw)
    if k == "active":
        return Thing("avg_active_signals", lambda: None, lambda o, x: bz.avg_active_signals(x), *d)
    step = float(rng.uniform(0.05, 0.5))
    return Thing("discretise_signal", lambda: None, lambda o, x: bz.discretise_signal(x["bet_size"], step), *d)


def thing_sadf(case):
    return thing_breaks(case, sadf=True)


def thing_breaks(case, sadf=False):
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest

    rng = case.rng
    s = []
    for _ in range(2):
        n = int(rng.integers(30, 60)) if sadf or rng.random() < 0.85 else int(rng.integers(260, 520))
        level = 10.0 ** rng.integers(-3, 6) if not sadf else 100
        s.append(pd.Series(level * np.exp(np.cumsum(rng.normal(0, 0.03, n))), index=gen.time_index(rng, n)))
    if not sadf and rng.random() < 0.12:
        s[0].iloc[rng.integers(1, len(s[0]), 2)] = np.nan
    k = "sadf" if sadf else gen.pick(rng, "csw", "sdfc")
    use = lambda o, x: o.run(x)
    if k == "csw":
        side = gen.pick(rng, "one_sided_positive", "one_sided_negative", "two_sided")
        return Thing("ChuStinchcombeWhiteStatTest", lambda: ChuStinchcombeWhiteStatTest(side), use, *s)
    if k == "sdfc":
        m = int(rng.integers(5, 12))
        return Thing("SupremumDickeyFullerChowStatTest", lambda: SupremumDickeyFullerChowStatTest(m), use, *s)
    lags = gen.pick(rng, 1, 2, [1, 3], [2])
    kw = dict(model=gen.pick(rng, "no_trend", "linear", "sm_poly_1", "sm_exp", "sm_power"), lags=lags, min_length=int(rng.integers(12, 20)),
              add_constant=bool(rng.random() < 0.5), phi=float(rng.uniform(0, 1)))
    return Thing("SupremumAugmentedDickeyFullerStatTest " + kw["model"], lambda: SupremumAugmentedDickeyFullerStatTest(**kw), use, *s, config=kw)


def thing_cv(case):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV

    rng = case.rng
    d = []
    n = int(rng.integers(20, 60))
    for _ in range(2):
        ix = gen.time_index(rng, n)
        X = pd.DataFrame({"f": rng.normal(size=n), "g": rng.normal(size=n)}, index=ix)
        p = pd.Series(ix, index=ix)
        e = pd.Series(ix[np.minimum(n - 1, np.arange(n) + rng.integers(0, 4, n))], index=ix)
        d.append([X, pd.Series(rng.choice([-1, 1], n), index=ix), p, e])
    kw = dict(n_groups=int(rng.integers(3, 6)), n_test_splits=int(rng.integers(1, 3)), embargo_td=pd.Timedelta(int(gen.pick(rng, 0, 1000, 10**7)), "ms"))

    # the splitter belongs to the prediction and evaluation times of its data
    def use(o, x):
        o = o if x is d[0] else CombPurgedKFoldCV(pred_times=x[2], eval_times=x[3], **kw)
        return [list(map(np.asarray, s)) for s in o.split(x[0], x[1])]

    return Thing("CombPurgedKFoldCV", lambda: CombPurgedKFoldCV(pred_times=d[0][2], eval_times=d[0][3], **kw), use, *d, config=kw)


def thing_bagging(case):
    from sklearn.linear_model import LogisticRegression
    from sklearn.tree import DecisionTreeClassifier

    rng = case.rng
    ends, bars, col, X, y, sub = bagging.draw_data(case)
    seed = int(rng.integers(0, 2**31))
    base = gen.pick(rng, DecisionTreeClassifier(max_depth=2), LogisticRegression(max_iter=50))
    w = gen.pick(rng, None, rng.uniform(0.5, 2, len(y)))
    X = X * 0.01 + rng.normal(size=X.shape)
    Z = pd.DataFrame(rng.normal(size=(int(rng.integers(1, 9)), X.shape[1])), columns=X.columns)
    kw = dict(base_estimator=base, n_estimators=int(rng.integers(1, 4)), random_state=seed)
    if rng.random() < 0.5:  # a fitted model
        def make():
            return bagging.make(ends.copy(), bars.copy(), col, **kw).fit(X.copy(), y.copy(), None if w is None else w.copy())

        m = gen.pick(rng, "predict", "predict_proba", "predict_log_proba")
        return Thing("bagging." + m, make, lambda o, x: getattr(o, m)(x), X, Z)
    other = [X * -0.5 + 1, y, w]

    def use(o, x):
        o.fit(x[0], x[1], x[2])
        return [o.predict_proba(Z), o.estimators_samples_]

    return Thing("bagging.fit", lambda: bagging.make(ends, bars, col, **kw), use, [X, y, w], other, config={"samples": ends, "bars": bars})


def thing_pipeline(case):
    from mizarlabs.model.pipeline import StrategyTrader
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

    rng = case.rng
    w = World(case, days=rng.random() < 0.5)
    prim, met = w.models(case)
    sizer = None
    if rng.random() < 0.4:
        sizer = BetSizingFromProbabilities(num_classes=2 if w.meta else len(prim.classes_), meta_labeling=bool(w.meta))

    def make():
        sp = w.build(bet_sizer=sizer).set_primary_model(prim)
        if w.meta:
            sp.set_metalabeling_model(met)
        return sp

    other = {k: v * float(rng.uniform(0.5, 2)) + 1.0 for k, v in w.frames.items()}
    if rng.random() < 0.5:
        cut = int(rng.integers(1, len(w.ti) + 1))
        other[w.key] = other[w.key].iloc[:cut]
    m = gen.pick(rng, "transform", "predict", "predict_proba", "get_side_and_size", "datasets", "create_signal", "create_strategy_bars", "create_position", "create_position")
    if m == "datasets":
        y = pd.Series(rng.choice([-1.0, 1.0], len(w.ti)), index=w.ti)
        if rng.random() < 0.3:
            y[rng.random(len(y)) < 0.3] = np.nan
        a, b = dict(w.frames, **{"_y": y}), dict(other, **{"_y": y})

        def use(o, x):
            fr = {k: v for k, v in x.items() if k != "_y"}
            r = [o.create_dataset_primary(fr, x["_y"])]
            if w.meta:
                r.append(o.create_dataset_metalabeling(fr, x["_y"]))
            return r

        return Thing("StrategySignalPipeline." + m, make, use, a, b, {"how": w.how})
    if m.startswith("create"):
        kw = dict(min_num_bars=5, num_expiration_bars=int(rng.integers(1, 9)), stop_loss_factor=1.5, profit_taking_factor=2.0, volatility_window=int(rng.integers(2, 30)),
                  volatility_adjusted_stop_loss=bool(rng.random() < 0.7))
        return Thing("StrategyTrader." + m, lambda: StrategyTrader(strategy_pipeline=make(), **kw), lambda o, x: getattr(o, m)(x), dict(w.frames), other, {"how": w.how})
    return Thing("StrategySignalPipeline." + m, make, lambda o, x: getattr(o, m)(x), dict(w.frames), other, {"how": w.how})


# six workers take every sixth case: each compiles the kernels of its own components only
THINGS = [
    thing_sadf, thing_trend, thing_labels, thing_bets, thing_pipeline, thing_pipeline,
    thing_feature, thing_breaks, thing_bagging, thing_sampling, thing_weights, thing_cv,
    thing_feature, thing_feature, thing_feature, thing_feature, thing_feature, thing_feature,
]


def shorter(x, rng):
    """A part of the data, or the data without something."""
    if isinstance(x, pd.DataFrame):
        if rng.random() < 0.5 and x.shape[1] > 1:
            return x.drop(columns=x.columns[int(rng.integers(x.shape[1]))])
        return x.iloc[: int(rng.integers(1, len(x) + 1))]
    if isinstance(x, pd.Series):
        return x.iloc[: int(rng.integers(1, len(x) + 1))]
    if isinstance(x, dict):
        k = gen.pick(rng, *x)
        return {**x, k: shorter(x[k], rng)} if rng.random() < 0.7 else {a: v for a, v in x.items() if a != k}
    return None


@prop(
    "C34", quick=1080, thorough=36000, workers=6, env={"NUMBA_OPT": "0"},
    rule="a case is one configured component (feature transformers, strategies, TA-Lib functions, unions, labelers, filters, bootstrap, weights, bet "
    "sizing, structural break tests, cross-validation, bagging, strategy pipeline, trader) used in a drawn history of calls on the same data, on other data and on "
    "data it has to refuse; after every call the data and the configuration passed in are compared with deep copies, and every repetition with the "
    "first result and with that of a new object; non-trivial: a result (distinct by component and result)",
    assumptions=["a given random state for what draws at random", "results agree up to the rounding of the last bits"],
)
def c34(case):
    rng = case.rng
    t = THINGS[case.idx % len(THINGS)](case)
    if rng.random() < 0.35 and isinstance(t.data, (pd.DataFrame, pd.Series, dict)):
        t.other = nearly(rng, t.data)
        case.event("near_copies")
    case.param(component=t.name)
    data, other, config = gen.snapshot(t.data), gen.snapshot(t.other), gen.snapshot(t.config)

    def intact(what):
        case.check(gen.same(data, t.data), "input-changed", f"{t.name}: {what} changed the data passed in")
        case.check(gen.same(other, t.other), "input-changed", f"{t.name}: {what} changed data passed in earlier")
        case.check(gen.same(config, t.config), "configuration-changed", f"{t.name}: {what} changed its configuration")
        if case.failures:
            raise StopCase()

    obj = t.make()
    raw = []

    def use(o, x):
        r = outcome(lambda: raw.append(t.use(o, x)) or raw[-1])
        return r

    first = use(obj, t.data)
    intact("the first call")
    if failed(first):
        case.event("refused")
    kept = raw[-1] if raw else None
    own = use(t.make(), t.other)
    intact("a call on other data")
    names = []
    for _ in range(int(rng.integers(2, 6))):
        step = gen.pick(rng, "again", "again", "other", "part", "fresh")
        names.append(step)
        if step == "other":
            r = use(obj, t.other)
            case.check(alike(own, r), "history", lambda: f"{t.name} after {names}: differs from a new object on the other data")
        elif step == "part":
            p = shorter(gen.pick(rng, t.data, t.other), rng)
            if p is None:
                continue
            before = gen.snapshot(p)
            r = use(obj, p)
            case.check(gen.same(before, p), "input-changed", f"{t.name}: a call on partial data ({'refused' if failed(r) else 'accepted'}) changed them")
        elif step == "fresh":
            r = use(t.make(), t.data)
            case.check(alike(first, r), "new-object", lambda: f"{t.name}: a new object differs after {names}")
        else:
            r = use(obj, t.data)
            case.check(alike(first, r), "repetition", lambda: f"{t.name} after {names}: differs from the first call")
        intact(step)
        case.event("calls")
    r = use(obj, t.data)
    case.check(alike(first, r), "repetition", lambda: f"{t.name} after {names}: differs from the first call")
    intact("the last call")
    if kept is not None and not failed(first):
        case.check(alike(first, copy(kept)), "result-changed", f"{t.name}: a later call changed a result handed out earlier")
        case.event("results")
        case.seen(t.name, repr(first))


# -- look-ahead ------------------------------------------------------------

def rows(r):
    if isinstance(r, (pd.DataFrame, pd.Series)):
        r = r.values
    r = np.asarray(r)
    return r.reshape(len(r), -1).astype(float)


def continuation(rng, X, k, after=None):
    """The first k bars of X followed by arbitrary other bars."""
    n = len(X)
    m = int(rng.integers(1, 40))
    how = gen.pick(rng, "other", "scaled", "shuffled", "constant", "huge", "removed", "removed-one")
    head = X.iloc[:k]
    if how == "removed" or (how == "removed-one" and k < n - 1):
        return X.iloc[: k if how == "removed" else n - 1], how
    src = X.iloc[rng.integers(0, n, m)].copy()
    if how == "scaled":
        src = src * float(rng.uniform(0.3, 3))
    elif how == "constant":
        src.iloc[:] = src.iloc[[0]].values
    elif how == "huge":
        src = src * 1e6
    elif how == "other":
        src = src * np.exp(rng.normal(0, 0.3, src.shape))
    if "unit" in src:
        src["unit"] = rng.uniform(-0.99, 0.99, m)
        src["periods"] = rng.integers(2, 10, m).astype(float)
    if isinstance(X.index, pd.DatetimeIndex):
        step = rng.integers(1, int(gen.pick(rng, 5, 10**6, 10**10)), m).cumsum() * gen.MS
        src.index = pd.DatetimeIndex((head.index[-1] if after is None else after).value + step)
    else:
        src.index = range(k, k + m)
    return pd.concat([head, src]), how


@prop(
    "C35", quick=1800, thorough=60000, workers=6,
    rule="a case is one configured feature transformer, technical strategy, TA-Lib function, union of them, or a strategy pipeline or trader built from them, one history of "
    "bars and several cut points; the rows up to the cut are compared when later bars are removed, appended or replaced (also by values a "
    "million times larger); non-trivial: a compared row with a value (distinct by component and output)",
    assumptions=["results agree up to rounding relative to the values before the cut"],
)
def c35(case):
    rng = case.rng
    if case.idx % 8 == 7:
        return pipeline_prefix(case)
    kind = ["micro", "technical", "ta", "rolling"][(case.idx // 4) % 4] if case.idx % 4 else None
    name, make, config, warm = feature(rng, kind)
    X = _with_inputs(rng, _frame(rng, 12, 100, 0.3))
    n = len(X)
    gaps = not name.startswith(("TA", "union")) and rng.random() < 0.3
    if gaps:  # one missing value in every column, each in its own place
        for c in X.columns:
            X.iloc[int(rng.integers(n)), X.columns.get_loc(c)] = np.nan
    odd = np.flatnonzero((X.isna() | (X == 0)).any(axis=1).values) + 1  # cuts right after a gap
    case.param(component=name, n=n, config=config)
    obj = make()
    m = gen.pick(rng, *[x for x in _methods(obj) if x != "fit_transform"])
    try:
        full = rows(getattr(obj, m)(X))
    except Exception as e:
        raise StopCase(f"{name}: {e}")  # C31-C36 decide which data have to be accepted
    case.check(len(full) == n, "rows", f"{name}.{m}: {len(full)} rows for {n} bars")
    if m != "predict_proba" and warm:
        head = full[: min(warm, n)]
        case.check((np.isnan(head) | (head == 0)).all(), "warm-up", lambda: f"{name}.{m}: a value in the warm-up of {warm} bars: {head.ravel()[:40].tolist()}")
    discrete = np.isin(full[np.isfinite(full)], [-100.0, -1.0, -0.5, 0.0, 0.5, 1.0, 100.0]).all()
    for j in range(20 if gaps else 8):
        k = int(gen.pick(rng, int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1)), min(n, warm + 1), max(1, min(n, warm)), n))
        if len(odd) and (gaps or j % 2):
            k = int(rng.choice(odd))
        Y, how = continuation(rng, X, k)
        same = gen.pick(rng, obj, make())
        try:
            part = rows(getattr(same, m)(Y))
        except Exception as e:
            if Y.isna().all().any():
                continue  # TA-Lib refuses inputs without any value
            case.fail("refused", f"{name}.{m}: refuses {len(Y)} bars ({how}): {type(e).__name__} {e}")
            return
        if not case.check(len(part) == len(Y), "rows", f"{name}.{m}: {len(part)} rows for {len(Y)} bars"):
            return
        k = min(k, len(Y))
        a, b = part[:k], full[:k]
        scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, np.nan)), axis=0, initial=0.0)
        ok = np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True) or (not discrete and (np.isnan(a) == np.isnan(b)).all() and bool(
            (np.abs(np.nan_to_num(a) - np.nan_to_num(b)) <= 1e-9 * np.abs(np.nan_to_num(b)) + 1e-12 * scale).all()))
        case.check(ok, "look-ahead", lambda: f"{name}.{m}: bars after {k} of {n} {how}: " + gen.first_diff(a, b, 1e-9, 0))
        case.event("cuts")
        case.event(how)
        case.event("rows_compared", k)
        if case.failures:
            return
    if np.isfinite(full).any():
        case.seen(name, m, full)


class FrameFeature:
    """Hands a library feature to a strategy: keeps the times, adds a column."""

    def __init__(self, parts):
        self.parts = parts

    def transform(self, X):
        cols = [rows(p.transform(X) if hasattr(p, "transform") else p.predict(X)) for p in self.parts]
        return pd.DataFrame(np.concatenate(cols, axis=1), index=X.index)


def pipeline_prefix(case):
    from mizarlabs.model.pipeline import StrategySignalPipeline, StrategyTrader

    rng = case.rng
    n = int(rng.integers(15, 70)) if rng.random() < 0.96 else int(rng.integers(260, 420))
    ti = gen.day_index(rng, n)
    key = "bars"
    frames = {key: _with_inputs(rng, gen.bars(rng, n, index=ti))}
    chosen = {key: [feature(rng, gen.pick(rng, "micro", "rolling", "technical")) for _ in range(int(rng.integers(1, 3)))]}
    if rng.random() < 0.6:
        m = int(rng.integers(n, 3 * n))
        x = np.unique(rng.integers(ti.asi8[0] // gen.MS - 10**6, ti.asi8[-1] // gen.MS + 1, m)) * gen.MS
        ix = pd.DatetimeIndex(x)
        frames["other"] = _with_inputs(rng, gen.bars(rng, len(ix), index=ix))
        chosen["other"] = [feature(rng, gen.pick(rng, "micro", "rolling"))]
    how = {k: gen.pick(rng, "mean", "min", "max") for k in frames if k != key}
    meta = rng.random() < 0.5
    cls = gen.pick(rng, [-1.0, 0.0, 1.0], [-1.0, 1.0], [0.0, 1.0])
    prim = est.TableModel(cls, float(rng.random()), bool(rng.random() < 0.5))
    met = est.TableModel([0.0, 1.0], float(rng.random()))
    adj = bool(rng.random() < 0.7)

    def make():
        tr = {k: FrameFeature([c[1]() for c in v]) for k, v in chosen.items()}
        sp = StrategySignalPipeline(tr, key, dict(how), feature_transformers_metalabeling_model=dict(tr) if meta else None).set_primary_model(prim)
        if meta:
            sp.set_metalabeling_model(met)
        return StrategyTrader(strategy_pipeline=sp, min_num_bars=1, num_expiration_bars=3, stop_loss_factor=1.0, profit_taking_factor=2.0,
                              volatility_window=10, volatility_adjusted_stop_loss=adj)

    case.param(features={k: [c[0] for c in v] for k, v in chosen.items()}, how=how, meta=meta, n=n)
    try:
        full = make().create_position(frames)
    except Exception as e:
        raise StopCase(str(e))  # nothing complete: C23 and C25 decide what has to be accepted
    usable = full[["side", "size"]].dropna().index
    if not len(usable):
        raise StopCase("no signal")
    for _ in range(3):
        T = usable[int(rng.integers(len(usable)))]
        new = {}
        hows = []
        for k, f in frames.items():
            j = int((f.index <= T).sum())
            new[k], h = continuation(rng, f, j, T) if j else (f, "as it was")
            hows.append(h)
        if any(not len(f) for f in new.values()):
            continue
        try:
            part = make().create_position(new)
        except Exception as e:
            if not all(h.startswith("removed") for h in hows):
                case.event("continuations_refused")  # gaps in the middle of features (no variation) are refused
                continue
            case.fail("refused", f"bars after {T} {hows}: {type(e).__name__} {e}")
            return
        a, b = part.loc[part.index <= T].sort_index(), full.loc[full.index <= T].sort_index()
        case.event("cuts")
        case.event("rows_compared", len(b))
        if not case.check(a.index.equals(b.index), "look-ahead", lambda: f"bars after {T} {hows}: other rows, {len(a)} instead of {len(b)}"):
            return
        a, b = a[full.columns].values.astype(float), b.values.astype(float)
        case.check(np.allclose(a, b, rtol=1e-6, atol=1e-7, equal_nan=True), "look-ahead", lambda: f"bars after {T} {hows}: " + gen.first_diff(a, b, 1e-6, 1e-7))
    case.seen("pipeline", full.values.astype(float))
