"""C31, C32, C33, C36: feature transformers and technical strategies."""
import numpy as np
import pandas as pd

from mon import gen
from mon.core import StopCase, prop


def _bars(rng, n=None, lo=3, hi=90):
    n = int(rng.integers(lo, gen.pick(rng, lo + 10, 40, hi)) if rng.random() < 0.97 else rng.integers(260, 700)) if n is None else n
    r = rng.random()
    if r < 0.2 and n < 1000:
        df = gen.real_bars()
        a = int(rng.integers(0, max(1, len(df) - n)))
        df = df.iloc[a: a + n].copy()
        num = [c for c in df.columns if df[c].dtype.kind in "fiu"]
        return df[num].astype(float), "real"
    df = gen.bars(rng, n, integer=r < 0.4)
    kind = "integer" if r < 0.4 else "drawn"
    if rng.random() < 0.15:
        df.index = pd.RangeIndex(n)
        kind += "+range"
    if rng.random() < 0.2:
        a = int(rng.integers(0, n))
        b = int(min(n, a + rng.integers(2, 20 if n < 1000 else 400)))
        for c in ("open", "high", "low", "close"):
            df.iloc[a:b, df.columns.get_loc(c)] = float(df["close"].iloc[a])
        kind += "+flat"
    if rng.random() < 0.07:  # single bars far outside the range of the others
        for i in rng.integers(0, n, int(rng.integers(1, 3))):
            f = 1 + rng.uniform(0.5, 6)
            df.iloc[i, df.columns.get_loc("high")] *= f
            df.iloc[i, df.columns.get_loc("low")] /= f
            for c in df.columns:
                if c.endswith("volume"):
                    df.iloc[i, df.columns.get_loc(c)] *= f**4
        kind += "+spikes"
    r = rng.random()
    if r < 0.05 and kind.startswith("drawn"):  # a pegged price
        level, peg = float(df["close"].iloc[0]), float(gen.pick(rng, 1.0, 0.001, 3000.0))
        for c in ("open", "high", "low", "close"):
            df[c] = peg * (1 + (df[c] / level - 1) * 1e-5)
        kind += "+pegged"
    elif r < 0.12 and isinstance(df.index, pd.DatetimeIndex):  # bars closer than a millisecond
        step = rng.integers(1, int(gen.pick(rng, 900, 900_000, 5_000_000)), n)
        df.index = pd.DatetimeIndex(df.index[0].value + np.cumsum(step))
        kind += "+fast"
    return df, kind


def roll(x, w, f=np.mean):
    """f over every trailing window of w values without gaps; NaN elsewhere."""
    out = np.full(len(x), np.nan)
    if len(x) > 1000:
        win = np.lib.stride_tricks.sliding_window_view(np.asarray(x, dtype=float), w)
        for a in range(0, len(win), 4096):
            v = win[a: a + 4096]
            out[w - 1 + a: w - 1 + a + len(v)] = np.where(np.isnan(v).any(axis=1), np.nan, f(v, axis=1))
        return out
    for i in range(w - 1, len(x)):
        v = x[i - w + 1: i + 1]
        if not np.isnan(v).any():
            out[i] = f(v)
    return out


def diff(x):
    out = np.full(len(x), np.nan)
    out[1:] = np.diff(x)
    return out


def near(got, want, rtol, atol):
    return got.shape == want.shape and bool(np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True))


def holes(rng, X, columns):
    """X with missing values in some of the columns."""
    X = X.copy()
    for c in columns:
        if c in X and rng.random() < 0.5:
            X[c] = X[c].astype(float)
            k = int(rng.integers(1, 4))
            X.iloc[rng.integers(0, len(X), k), X.columns.get_loc(c)] = np.nan
    return X


def column(case, out, n, what):
    out = np.asarray(out)
    if not case.check(out.shape == (n, 1), "shape", f"{what}: {out.shape} for {n} bars"):
        raise StopCase()
    return out[:, 0].astype(float)


NAMES = dict(close="px", high="hi", low="lo", base_asset_volume="vol", quote_asset_volume="qvol", base_asset_buy_volume="bv", base_asset_sell_volume="sv")


@prop(
    "C31", quick=900, thorough=30000, workers=6,
    rule="a case is one set of bars (drawn, integer-valued, flat stretches, one-sided volumes, or the repository's own dollar bars) on which every "
    "microstructural transformer is run with its own window and column names; every bar is recomputed from its window; non-trivial: at "
    "least one full window (distinct by bars and windows)",
    assumptions=["positive prices and volumes, low <= high", "results agree up to the rounding of running sums"],
)
def c31(case):
    from mizarlabs.transformers.microstructural_features import first_generation as fg
    from mizarlabs.transformers.microstructural_features import second_generation as sg
    from mizarlabs.transformers.microstructural_features.vpin import VPIN

    rng = case.rng
    X, kind = _bars(rng, gen.long_n(case))
    n = len(X)
    w = int(gen.pick(rng, 2, 3, 5, 20, int(rng.integers(2, 25))))
    if n > 200 and rng.random() < 0.7:
        w = int(rng.integers(26, min(n // 2, 400)))
        case.event("windows_over_25_bars")
    custom = rng.random() < 0.3
    nm = NAMES if custom else {k: k for k in NAMES}
    if custom:
        X = X.rename(columns=NAMES)
        # what the default names would select
        X["close"], X["high"], X["low"] = 1.0, 3.0, 2.0
        X["base_asset_volume"] = X["quote_asset_volume"] = 5.0
    whole = X
    B, S = X[nm["base_asset_buy_volume"]].values.astype(float), X[nm["base_asset_sell_volume"]].values.astype(float)
    VV = X[nm["base_asset_volume"]].values.astype(float)
    r = rng.random()
    if r < 0.12:
        X = holes(rng, X, [nm[k] for k in ("close", "high", "low", "base_asset_volume", "quote_asset_volume")])
        kind += "+holes"
    elif r < 0.2:
        X = X.copy()
        for k in ("base_asset_volume", "quote_asset_volume"):
            X[nm[k]] = np.where(rng.random(n) < 0.1, 0.0, X[nm[k]])
        kind += "+no volume"
    C, H, L, V, Q = (X[nm[k]].values.astype(float) for k in ("close", "high", "low", "base_asset_volume", "quote_asset_volume"))
    case.param(n=n, window=w, bars=kind, custom_names=custom)

    def kw(*cols):
        d = {} if w == 20 and rng.random() < 0.5 else {"window": w}
        if custom:
            d.update({c + "_column_name": NAMES[c] for c in cols})
        return d

    def run(cls, cols, X=X):
        tr = cls(**kw(*cols))
        before = gen.snapshot(X)
        out = tr.fit_transform(X) if rng.random() < 0.3 else tr.transform(X)
        case.check(gen.same(before, X), "input-changed", f"{cls.__name__} modified its input")
        if rng.random() < 0.15:
            c = gen.pick(rng, *cols)
            case.refuses("missing-column", lambda: tr.transform(X.drop(columns=nm[c])))
        case.event("transforms")
        return column(case, out, n, cls.__name__)

    d = diff(C)
    lag = np.concatenate(([np.nan], d[:-1]))
    full = np.isfinite(roll(d + lag, w))
    cov = np.full(n, np.nan)
    for i in np.flatnonzero(full):
        a, b = d[i - w + 1: i + 1], lag[i - w + 1: i + 1]
        cov[i] = ((a - a.mean()) * (b - b.mean())).sum() / (w - 1)
    def top(x):
        x = x[np.isfinite(x)]
        return float(x.max()) if len(x) else 1.0

    scale = top(d**2)
    got = run(fg.RollMeasure, ["close"])
    case.check(near((got / 2) ** 2, np.abs(cov), 1e-7, 1e-10 * scale + 1e-300) and (got[full] >= 0).all(), "roll-measure", lambda: gen.first_diff((got / 2) ** 2, np.abs(cov), 1e-7, 1e-10 * scale))
    imp = run(fg.RollImpact, ["close", "quote_asset_volume"])
    imp2, want = np.where(Q > 0, (imp * Q / 2) ** 2, np.nan), np.where(Q > 0, np.abs(cov), np.nan)
    case.check(near(imp2, want, 1e-7, 1e-10 * scale + 1e-300), "roll-impact", lambda: gen.first_diff(imp2, want, 1e-7, 1e-10 * scale))
    case.check(not np.isfinite(imp[~(Q > 0)]).any(), "roll-impact", "a finite impact for a bar without volume")
    hl = np.log(H / L)

    def compare(what, got, want, atol):
        case.check(near(got, want, 1e-7, atol), what, lambda: gen.first_diff(got, want, 1e-7, atol))

    pv = hl**2 / (4 * np.log(2))
    got = run(fg.ParkinsonVolatility, ["high", "low"])
    compare("parkinson", got, roll(pv, w), 1e-12 * top(pv) + 1e-300)
    case.check(not (got < 0).any(), "sign", "negative Parkinson volatility")
    b2 = np.full(n, np.nan)
    g = np.full(n, np.nan)
    for i in range(1, n):
        b2[i] = hl[i] ** 2 + hl[i - 1] ** 2
        g[i] = np.log(np.maximum(H[i], H[i - 1]) / np.minimum(L[i], L[i - 1])) ** 2
    beta = roll(b2, w)
    den = 3 - 2 * np.sqrt(2)
    alpha = (np.sqrt(2 * beta) - np.sqrt(beta)) / den - np.sqrt(g / den)
    alpha = np.where(alpha < 0, 0.0, alpha)
    tol = 1e-6 * np.sqrt(top(b2)) + 1e-300
    got = run(fg.CorwinSchultzSpread, ["high", "low"])
    compare("corwin-schultz", got, 2 * (np.exp(alpha) - 1) / (1 + np.exp(alpha)), tol)
    case.check(not (got < 0).any(), "sign", "negative spread")
    k2 = np.sqrt(8 / np.pi)
    sig = (1 / np.sqrt(2) - 1) * np.sqrt(beta) / (k2 * den) + np.sqrt(g / (k2**2 * den))
    sig = np.where(sig < 0, 0.0, sig)
    got = run(fg.BeckersParkinsonVolatility, ["high", "low"])
    compare("beckers-parkinson", got, sig, tol)
    case.check(not (got < 0).any(), "sign", "negative Beckers-Parkinson volatility")
    r = np.abs(diff(np.log(C)))
    for cls, cols, x in (
        (sg.KyleLambda, ["close", "base_asset_volume"], np.abs(d) / V),
        (sg.AmihudLambda, ["close", "quote_asset_volume"], r / Q),
        (sg.HasbrouckLambda, ["close", "quote_asset_volume"], r / np.sqrt(Q)),
    ):
        got = run(cls, cols)
        x = np.where(np.isfinite(x), x, np.nan)
        compare(cls.__name__, np.where(np.isfinite(got), got, np.nan), roll(x, w), 1e-12 * top(x) + 1e-300)
        case.check(not (got < 0).any(), "sign", f"negative {cls.__name__}")
    got = run(VPIN, ["base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume"], whole)
    want = roll(np.abs(B - S), w, np.sum) / roll(VV, w, np.sum)
    compare("vpin", got, want, 1e-10)
    if not np.allclose(B + S, VV):
        case.event("volumes_do_not_add_up")
    else:
        ok = got[np.isfinite(got)]
        case.check((ok >= -1e-12).all() and (ok <= 1 + 1e-12).all(), "vpin-range", lambda: f"VPIN {ok.min()}..{ok.max()}")
    case.event("full_windows", int(np.isfinite(want).sum()))
    if np.isfinite(want).any():
        case.seen(w, C, B)
    if rng.random() < 0.2:
        # bars without any trade: VPIN stays defined and in range
        Z = pd.DataFrame({nm["base_asset_buy_volume"]: rng.integers(0, 3, n) * 1.0, nm["base_asset_sell_volume"]: rng.integers(0, 3, n) * 1.0}, index=X.index)
        a = int(rng.integers(0, n))
        Z.iloc[a: a + w + 2] = 0.0
        Z[nm["base_asset_volume"]] = Z.sum(axis=1)
        z = np.asarray(VPIN(**dict(kw("base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume"), window=w)).transform(Z))[:, 0]
        case.check(np.isnan(z[: w - 1]).all() and ((z[w:] >= 0) & (z[w:] <= 1)).all(), "vpin-range", "VPIN of bars without trades is out of range")
        case.event("bars_without_trades")


def ewma(x, span):
    """Missing values have no weight but keep their place; bars before the first value have none."""
    a = 2.0 / (span + 1)
    out = np.full(len(x), np.nan)
    known = ~np.isnan(x)
    z = np.where(known, x, 0.0)
    if len(x) > 1000:  # the same sums, carried along
        num = den = 0.0
        for i in range(len(x)):
            num, den = num * (1 - a) + z[i], den * (1 - a) + known[i]
            out[i] = num / den if known[i] else out[i - 1] if i else np.nan
        return out
    for i in range(len(x)):
        w = (1 - a) ** np.arange(i, -1, -1.0) * known[: i + 1]
        if w.any():
            out[i] = (w * z[: i + 1]).sum() / w.sum()
        elif i:
            out[i] = out[i - 1]
    return out


def one_hot(pred, classes):
    return np.array([[1.0 if p == c else 0.0 for c in classes] for p in pred]).reshape(len(pred), len(classes))


@prop(
    "C32", quick=900, thorough=30000, workers=6,
    rule="a case is one set of bars on which every crossover feature and strategy is run with drawn parameters and recomputed bar by bar; bars "
    "whose condition is decided by less than the rounding of running sums are skipped, except on integer prices, where averages are exact; "
    "non-trivial: at least one signal (distinct by bars and parameters)",
    assumptions=["positive prices, unique times", "non-negative threshold of the mean-reversion strategy"],
)
def c32(case):
    import talib

    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.moving_average import (
        ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver, MovingAverageCrossOverPredictor,
    )
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    from mizarlabs.transformers.technical.volume import BuySellImbalance

    rng = case.rng
    X, kind = _bars(rng, gen.long_n(case), lo=5, hi=140)
    n = len(X)
    X["other"] = np.cumsum(rng.integers(-2, 3, n)) + 50.0
    c = X["close"].values.astype(float)
    col = gen.pick(rng, "close", "other", "other")
    v = X[col].values.astype(float)
    exact = bool((v == np.round(v)).all() and np.abs(v).max() < 1e6)
    fast = int(rng.integers(1, 8)) if rng.random() < 0.93 else int(rng.integers(8, 45))
    slow = fast + int(gen.pick(rng, 0, 1, 2, int(rng.integers(1, 15))))
    if n > 200 and rng.random() < 0.6:
        fast = int(rng.integers(20, 90))
        slow = fast + int(rng.integers(1, 250))
    case.param(n=n, bars=kind, column=col, fast=fast, slow=slow)
    before = gen.snapshot(X)
    # moving averages
    f, s = roll(v, fast), roll(v, slow)
    d = f - s
    if exact:
        sure = np.ones(n, dtype=bool)
        # compare as integers: fast sum * slow vs slow sum * fast
        d = roll(v, fast, np.sum) * slow - roll(v, slow, np.sum) * fast
    else:
        tiny = 1e-10 * np.abs(v).max()
        ok = ~(np.abs(d) < tiny)
        sure = ok & np.concatenate(([True], ok[:-1]))
    sig = np.zeros(n)
    for i in range(1, n):
        if d[i] > 0 and d[i - 1] <= 0:
            sig[i] = 1
        elif d[i] < 0 and d[i - 1] >= 0:
            sig[i] = -1
    if sure.all() or (fast != slow and exact):
        fill = sig.copy()
        for i in range(1, n):
            if fill[i] == 0:
                fill[i] = fill[i - 1]
    else:
        fill = None
    for filled in (False, True):
        want, mask = (fill, np.ones(n, bool)) if filled else (sig, sure)
        if want is None:
            continue
        for cls in (MovingAverageCrossOver, MovingAverageCrossOverPredictor):
            args = dict(fast=fast, slow=slow, column_name=col)
            if filled or rng.random() < 0.3:
                args["fill_between_crossovers"] = filled
            tr = cls(**args)
            got = column(case, tr.transform(X), n, cls.__name__)
            case.check(np.array_equal(got[mask], want[mask]), "crossover", lambda: f"filled {filled}: " + gen.first_diff(got[mask], want[mask]))
            if cls is MovingAverageCrossOverPredictor:
                p, q = tr.predict(X), tr.predict_proba(X)
                case.check(np.array_equal(np.asarray(p, float), got) and np.array_equal(q, one_hot(got, [-1, 0, 1])) and list(tr.classes_) == [-1, 0, 1], "crossover-probabilities", "prediction or probabilities differ")
    case.event("crossovers", int((sig[sure] != 0).sum()))
    case.refuses("fast-above-slow", lambda: MovingAverageCrossOver(slow + 1, slow, col))
    # averaged differences
    Y, v0 = X, v
    if rng.random() < 0.12:
        Y = holes(rng, X, [col])
        v = Y[col].values.astype(float)
    e = ewma(v, fast) - ewma(v, slow)
    for norm in (True, False):
        tr = ExponentialWeightedMovingAverageDifference(fast, slow, col, norm) if not norm or rng.random() < 0.5 else ExponentialWeightedMovingAverageDifference(fast, slow, col)
        got = column(case, tr.transform(Y), n, "EWMA difference")
        want = e / (ewma(v, fast) + 1) if norm else e
        case.check(near(got, want, 1e-8, 1e-10 * np.abs(v0).max()), "ewma-difference", lambda: gen.first_diff(got, want, 1e-8, 1e-10 * np.abs(v0).max()))
    v = v0
    vt = gen.pick(rng, "quote", "base")
    if rng.random() < 0.15:  # bars without trades
        quiet = np.flatnonzero(rng.random(n) < 0.15)
        for k in [k for k in X.columns if k.endswith(("_asset_volume", "_asset_buy_volume", "_asset_sell_volume"))]:
            X.iloc[quiet, X.columns.get_loc(k)] = 0.0
        before = gen.snapshot(X)
    elif rng.random() < 0.15:  # trades whose side is not known
        for k in [k for k in X.columns if k.endswith("_asset_volume")]:
            X[k] = X[k].astype(float) * rng.uniform(1, 1.5, n)
        if rng.random() < 0.4:
            X = holes(rng, X, [k for k in X.columns if k.endswith(("_asset_volume", "_asset_buy_volume", "_asset_sell_volume"))])
        before = gen.snapshot(X)
    b, sl, tot = (X[f"{vt}_asset_{k}"].values.astype(float) if f"{vt}_asset_{k}" in X else None for k in ("buy_volume", "sell_volume", "volume"))
    if b is not None and sl is not None:
        got = column(case, BuySellImbalance(fast, slow, vt).transform(X), n, "imbalance")
        x = (ewma(b, fast) - ewma(sl, fast)) - (ewma(b, slow) - ewma(sl, slow))
        case.check(near(got, x / (tot + 1), 1e-8, 1e-9 * np.nanmax([*b, *sl]) / (np.nanmin(tot) + 1)), "imbalance", lambda: gen.first_diff(got, x / (tot + 1), 1e-8))
    case.refuses("volume-type", lambda: BuySellImbalance(fast, slow, gen.pick(rng, "", "quotes", "Base", None)))
    # MACD
    mf = int(rng.integers(2, 7))
    ms, sg = mf + int(rng.integers(1, 9)), int(rng.integers(2, 7))
    hist = talib.MACD(v, fastperiod=mf, slowperiod=ms, signalperiod=sg)[2]
    sign = np.sign(hist)
    got = column(case, MACDHistogramCrossOver(mf, ms, sg, col).transform(X), n, "MACD")
    want = diff(sign) / 2
    case.check(near(got, want, 0, 1e-12), "macd", lambda: gen.first_diff(got, want))
    if col == "close" and rng.random() < 0.2:
        want2 = diff(np.sign(talib.MACD(v, 12, 26, 9)[2])) / 2
        got2 = column(case, MACDHistogramCrossOver().transform(X), n, "MACD")
        case.check(near(got2, want2, 0, 1e-12), "macd", "default parameters differ")
    case.event("macd_crossings", int((np.abs(want) > 0.4).sum()))
    # mean reversion
    tp, thr = int(rng.integers(2, 10)), float(gen.pick(rng, 0.0, 0.001, 0.01, float(rng.uniform(0, 0.03)), 10.0 ** rng.uniform(-8, -2)))
    ema = talib.EMA(c, timeperiod=tp)
    z = (c - ema) / ema
    want = np.where(z > thr, -1, np.where(z < -thr, 1, 0))
    ok = ~(np.abs(np.abs(z) - thr) < 1e-12)
    if thr == 0:
        ok |= c == ema  # exactly at the threshold
    m = MeanReversionStrategy(threshold=thr, short_time_period=tp)
    got, pr = np.asarray(m.predict(X)), m.predict_proba(X)
    case.check(got.shape == (n,) and np.array_equal(got[ok], want[ok]), "mean-reversion", lambda: gen.first_diff(got[ok], want[ok]))
    case.check(np.array_equal(pr, one_hot(got, m.classes_)) and list(m.classes_) == [-1, 0, 1] and m.n_classes_ == 3, "mean-reversion-probabilities", "probabilities differ")
    case.event("mean_reversion_signals", int((want[ok] != 0).sum()))
    # RSI confirmation
    tp, cp, mw = int(rng.integers(2, 12)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    lim = float(rng.uniform(15, 95))
    if rng.random() < 0.25:
        tp, cp, mw = int(rng.integers(2, 25)), int(rng.integers(5, 16)), int(rng.integers(1, 20))
        lim = float(rng.uniform(45, 95))
        if n > 200:
            cp, lim = int(rng.integers(16, 120)), float(rng.uniform(75, 99.9))
    rsi = talib.RSI(c, timeperiod=tp)
    if rng.random() < 0.2 and np.isfinite(rsi).any():
        lim = float(rng.choice(rsi[np.isfinite(rsi)]))  # exactly at the threshold
    avg = roll(rsi, mw)
    want, ok = np.zeros(n), np.ones(n, bool)
    for i in range(n):
        win = rsi[max(0, i - cp + 1): i + 1]
        low = len(win) == cp and bool((win < lim).all())
        inc = i > 0 and avg[i] - avg[i - 1] > 0
        want[i] = 1 if low and inc else 0
        if ((np.abs(win - lim) < 1e-9) & (win != lim)).any() or (i > 0 and abs(avg[i] - avg[i - 1]) < 1e-9):
            ok[i] = False
    m = RSIConfirmation(rsi_timeperiod=tp, rsi_threshold=lim, rsi_confirmation_period=cp, rsi_moving_average_window=mw)
    got, pr = np.asarray(m.predict(X)).astype(float), m.predict_proba(X)
    case.check(got.shape == (n,) and np.array_equal(got[ok], want[ok]), "rsi-confirmation", lambda: gen.first_diff(got[ok], want[ok]))
    case.check(np.array_equal(pr, one_hot(got, m.classes_)) and list(m.classes_) == [0, 1], "rsi-confirmation-probabilities", "probabilities differ")
    case.event("rsi_confirmations", int(want[ok].sum()))
    # bar arrival
    if isinstance(X.index, pd.DatetimeIndex):
        bf, bs = int(rng.integers(1, 6)), int(rng.integers(1, 12))
        dt = diff(X.index.asi8)
        lo, hi = float(rng.uniform(0, 50)), float(rng.uniform(50, 100))
        if rng.random() < 0.2 and np.isfinite(rsi).any():
            lo, hi = (float(v) for v in np.sort(rng.choice(rsi[np.isfinite(rsi)], 2)))
        mx = float(gen.pick(rng, 10**9, 10**12, float(np.nanmax(dt))))
        x = (roll(dt, bf) - roll(dt, bs)) / mx
        spread = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 1.0
        bl, bh = sorted(rng.normal(0, max(spread, 1e-9) / 2, 2))
        if rng.random() < 0.3:
            bl = -10 * spread - 1
        want = np.array([1.0 if (r > lo and r < hi and q < bh and q > bl) else 0.0 for r, q in zip(rsi, x)])
        tol = 1e-9 * np.nanmax(dt) / mx + 1e-12 * spread
        ok = ~(((np.abs(rsi - lo) < 1e-9) & (rsi != lo)) | ((np.abs(rsi - hi) < 1e-9) & (rsi != hi)) | (np.abs(x - bl) <= tol) | (np.abs(x - bh) <= tol))
        m = BarArrivalRSIStrategy(rsi_upper_threshold=hi, rsi_lower_threshold=lo, bar_arrival_upper_threshold=bh, bar_arrival_lower_threshold=bl,
                                  rsi_timeperiod=tp, bar_arrival_fast_period=bf, bar_arrival_slow_period=bs, max_bar_arrival_mean_diff=mx)
        got, pr = np.asarray(m.predict(X)).astype(float), m.predict_proba(X)
        case.check(got.shape == (n,) and np.array_equal(got[ok], want[ok]), "bar-arrival", lambda: gen.first_diff(got[ok], want[ok]))
        case.check(np.array_equal(pr, one_hot(got, m.classes_)) and list(m.classes_) == [0, 1], "bar-arrival-probabilities", "probabilities differ")
        case.event("bar_arrival_signals", int(want[ok].sum()))
    case.check(gen.same(before, X), "input-changed", "a strategy modified its input")
    if (sig != 0).any():
        case.seen(fast, slow, v)


def ta_inputs(name):
    """Input names of a TA-Lib function in its order, from the abstract interface."""
    from talib import abstract

    out = []
    for k, v in abstract.Function(name).info["input_names"].items():
        out += list(v) if k == "prices" else [k]
    return out


def ta_parameters(rng, name, n):
    from talib import abstract

    out = {}
    for k, v in abstract.Function(name).info["parameters"].items():
        if rng.random() < 0.5:
            continue
        if "matype" in k:
            out[k] = int(rng.integers(0, 9))
        elif k in ("fastlimit", "slowlimit"):
            out[k] = float(rng.uniform(0.02, 0.9))
        elif isinstance(v, int):
            out[k] = int(rng.integers(2, max(3, min(30, n // 2))))
        else:
            out[k] = 0.0 if rng.random() < 0.15 else float(rng.uniform(0.01, 0.9) if v <= 1 else rng.uniform(0.5, 4))
    return out


@prop(
    "C33", quick=1600, thorough=60000, workers=6,
    rule="a case is one TA-Lib function (all are visited in turn), parameters and column choice; the result is compared with the TA-Lib function "
    "called directly on the columns in the order of its abstract interface; non-trivial: an output with a value (distinct by function, "
    "parameters and data)",
    assumptions=["floating point columns", "parameters TA-Lib accepts"],
)
def c33(case):
    import talib

    from mizarlabs.transformers.technical.factory import TAFactory

    rng = case.rng
    names = sorted(talib.get_functions())
    name = names[case.idx % len(names)]
    X, kind = _bars(rng, gen.long_n(case), lo=10, hi=160)
    X = X.astype(float)
    n = len(X)
    X["periods"] = rng.integers(2, 10, n).astype(float)
    X["unit"] = rng.uniform(-0.99, 0.99, n)
    X["volume"] = X["base_asset_volume"]
    if rng.random() < 0.2:
        X.iloc[: int(rng.integers(0, 4)), X.columns.get_loc("close")] = np.nan
    if rng.random() < 0.15:
        X = holes(rng, X, list(X.columns))
        kind += "+holes"
    fac = TAFactory()
    case.check(sorted(fac.get_functions()) == names and name in fac.get_functions(), "functions", "list of functions differs")
    ins = ta_inputs(name)
    args = dict(func_name=name)
    real = [i for i in ins if i in ("real", "price", "price0", "price1", "real0", "real1")]
    pool = ["close", "open", "high", "low", "base_asset_volume", "unit"]
    if name in ("ACOS", "ASIN"):
        pool = ["unit"]
    elif name in ("EXP", "COSH", "SINH"):
        pool = ["unit", "periods"]
    if len(real) == 2:
        a, b = (str(x) for x in rng.choice(pool, 2, replace=False))
        args["col_to_transform"] = [a, b]
        cols = [a, b]
    elif len(real) == 1:
        a = gen.pick(rng, *pool)
        args["col_to_transform"] = a
        cols = [a if i == real[0] else i for i in ins]
    else:
        cols = list(ins)
    if any(c not in X.columns for c in cols) and "periods" not in cols:
        raise StopCase(f"{name}: inputs {cols}")
    mappable = [c for i, c in zip(ins, cols) if i not in real]
    if mappable and rng.random() < 0.5:
        keys = [c for c in mappable if rng.random() < 0.7] or mappable[:1]
        if rng.random() < 0.4 and len(mappable) > 1:  # columns that change places
            perm = list(rng.permutation(mappable))
            mp = {k: str(v) for k, v in zip(mappable, perm)}
        else:
            mp = {k: k + "_x" for k in keys}
            for k in keys:
                X[k + "_x"] = X[k].values * 1.01 if k != "periods" else X[k].values
        args["col_to_transform_mapping"] = mp
        cols = [mp.get(c, c) for c in cols] if not real else [c if i in real else mp.get(c, c) for i, c in zip(ins, cols)]
    params = ta_parameters(rng, name, n)
    if params or rng.random() < 0.2 and False:
        args["kw_args"] = params
    case.param(function=name, n=n, columns=cols, parameters=params, mapping=args.get("col_to_transform_mapping"), bars=kind)
    arrays = [X[c].values.astype(float) for c in cols]
    try:
        want = getattr(talib, name)(*[a.copy() for a in arrays], **params)
    except Exception as e:
        case.event("parameters_refused_by_talib")
        raise StopCase(str(e))
    want = np.column_stack(want) if isinstance(want, tuple) else np.asarray(want).reshape(-1, 1)
    order = list(rng.permutation(len(X.columns)))
    X = X.iloc[:, order]
    before = gen.snapshot(X)
    argsb = gen.snapshot(args)
    tr = fac.create_transformer(**args)
    case.check(args == argsb, "arguments-changed", "the factory modified its arguments")
    got = np.asarray(tr.fit_transform(X) if rng.random() < 0.3 else tr.transform(X))
    if case.check(got.shape == want.shape, "shape", f"{name}: {got.shape}, expected {want.shape}"):
        case.check(near(got.astype(float), want.astype(float), 1e-12, 0), "value", lambda: f"{name}: " + gen.first_diff(got, want, 1e-12, 0))
    case.check(gen.same(before, X), "input-changed", f"{name} modified its input")
    case.event("functions_run")
    case.event("outputs", want.shape[1])
    if np.isfinite(want).any():
        case.seen(name, sorted(params.items()), want)
    # a second transformer of the same function does not disturb the first
    if rng.random() < 0.3 and "col_to_transform" in args:
        other = dict(args, col_to_transform=gen.pick(rng, *pool) if len(real) == 1 else args["col_to_transform"][::-1])
        fac.create_transformer(**other).transform(X)
        case.check(near(np.asarray(tr.transform(X)).astype(float), want.astype(float), 1e-12, 0), "shared-state", f"{name}: another transformer changed the result")
    # refusals
    r = int(rng.integers(8))
    if r == 0:
        bad = gen.pick(rng, "NOPE", name.lower() + "_", name + "_X", "")
        case.refuses("unknown-function", lambda: fac.create_transformer(bad, *[args.get("col_to_transform")]))
    elif r == 1:
        case.refuses("unknown-parameter", lambda: fac.create_transformer(**dict(args, kw_args=dict(params, bogus=3))))
    elif r == 2:
        case.refuses("missing-column", lambda: tr.transform(X.drop(columns=str(rng.choice(cols)))))
    elif r == 3:
        case.refuses("not-a-frame", lambda: tr.transform(gen.pick(rng, X.values, X[cols[0]], arrays, None)))
    elif r == 4 and real:
        case.refuses("missing-column-choice", lambda: fac.create_transformer(**{k: v for k, v in args.items() if k != "col_to_transform"}))
        case.refuses("missing-column-choice", lambda: fac.create_transformer(**dict(args, col_to_transform=cols[0] if len(real) == 2 else [cols[0]])))
    elif r == 5:
        case.refuses("bad-mapping", lambda: fac.create_transformer(**dict(args, col_to_transform_mapping={"nope": "close"})))
        if mappable:
            case.refuses("bad-mapping", lambda: fac.create_transformer(**dict(args, col_to_transform_mapping=[("high", "low")])))


@prop(
    "C36", quick=1200, thorough=40000, workers=6,
    rule="a case is one set of bars and window; the rolling z-score of every predefined and of own series and the local-maximum ratio are "
    "recomputed from their windows; bars whose window varies less than rounding of running sums can resolve are skipped; non-trivial: a "
    "decidable full window (distinct by bars and window)",
    assumptions=["bars with DatetimeIndex for the arrival times", "positive prices", "a bar without buys has no buy volume"],
)
def c36(case):
    from mizarlabs.transformers.features import LocalMaxToCloseRatio, RollingZScoreTransformer, RollingZScoreTransformerFactory

    rng = case.rng
    X, kind = _bars(rng, gen.long_n(case))
    n = len(X)
    w = int(gen.pick(rng, 2, 3, 5, 10, int(rng.integers(2, 25))))
    if n > 200 and rng.random() < 0.7:
        w = int(rng.integers(26, min(n // 2, 400)))
        case.event("windows_over_25_bars")
    if "num_buy_ticks" not in X:
        X["num_buy_ticks"] = rng.integers(1, 30, n)
    for c in ("quote_asset_buy_volume", "quote_asset_sell_volume"):
        if c not in X:
            X[c] = rng.uniform(1, 100, n)
    X["num_buy_ticks"] = X["num_buy_ticks"].clip(lower=1)
    if rng.random() < 0.15:  # bars without buyers: no average size
        none = np.flatnonzero(rng.random(n) < 0.1)
        X.iloc[none, X.columns.get_loc("num_buy_ticks")] = 0
        X.iloc[none, X.columns.get_loc("quote_asset_buy_volume")] = 0
        kind += "+no buyers"
    if rng.random() < 0.12:
        X = holes(rng, X, ["quote_asset_buy_volume", "quote_asset_sell_volume", "high", "low", "close"])
        kind += "+holes"
    case.param(n=n, window=w, bars=kind)
    f = {k: X[k].values.astype(float) for k in ("quote_asset_buy_volume", "quote_asset_sell_volume", "num_buy_ticks", "high", "low", "close")}
    series = {
        "buy_sell_diff": f["quote_asset_buy_volume"] - f["quote_asset_sell_volume"],
        "average_buy_size": f["quote_asset_buy_volume"] / np.where(f["num_buy_ticks"] == 0, np.nan, f["num_buy_ticks"]),
        "high_to_low_ratio": f["high"] / f["low"],
    }
    if isinstance(X.index, pd.DatetimeIndex):
        series["bar_arrival_time"] = diff(X.index.asi8)
    mid = (f["high"] + f["low"]) / 2
    # a level far above its variation
    X["level"] = 10.0 ** rng.uniform(0, 6) * (1 + 10.0 ** -rng.uniform(1, 6.5) * rng.normal(size=n))
    before = gen.snapshot(X)
    own = RollingZScoreTransformer(w, lambda b: (b["high"] + b["low"]) / 2)
    decidable = 0
    level = RollingZScoreTransformer(to_series_func=lambda b: b["level"], window=w)
    for key, x in list(series.items()) + [("own", mid), ("level", X["level"].values)]:
        tr = own if key == "own" else level if key == "level" else RollingZScoreTransformerFactory.get_transformer(key, w)
        got = column(case, tr.transform(X) if rng.random() < 0.8 else tr.fit_transform(X), n, key)
        hist = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 1.0
        base = np.nanmin(x) if np.isfinite(x).any() else 0.0
        spread = np.nanmax(np.abs(x - base)) if np.isfinite(x).any() else 1.0
        for i in range(n):
            win = x[max(0, i - w + 1): i + 1]
            if len(win) < w or np.isnan(win).any():
                case.check(np.isnan(got[i]), "warm-up", f"{key}: bar {i} without a full window of {w} has the value {got[i]}")
                continue
            if (win == win[0]).all():
                case.check(np.isnan(got[i]), "no-variation", lambda: f"{key}, window {w}, bar {i}: {got[i]!r} for a constant window")
                continue
            sd = win.std(ddof=1)
            if sd**2 < 1e-8 * max(spread**2, hist**2 * 1e-6) or sd < 1e-9 * hist or 2e-13 * hist / sd * (1 + spread / sd) > 1e-5:
                continue
            z = (x[i] - win.mean()) / sd
            decidable += 1
            if not abs(got[i] - z) <= 1e-5 * (1 + abs(z)):
                case.fail("z-score", f"{key}, window {w}, bar {i}: got {got[i]!r}, expected {z!r}")
                break
        case.event("assertions")
    got = column(case, LocalMaxToCloseRatio(w).transform(X), n, "local maximum")
    want = roll(f["high"], w, np.max) / f["close"]
    case.check(near(got, want, 1e-12, 0), "local-maximum", lambda: gen.first_diff(got, want, 1e-12, 0))
    case.check(gen.same(before, X), "input-changed", "a transformer modified its input")
    case.event("decidable_windows", decidable)
    if decidable:
        case.seen(w, mid, series["buy_sell_diff"])
    if rng.random() < 0.3:
        case.refuses("unknown-name", lambda: RollingZScoreTransformerFactory.get_transformer(gen.pick(rng, "nope", "", "BUY_SELL_DIFF", None), w))
        case.check(set(RollingZScoreTransformerFactory.types) >= set(series), "names", "a predefined name is missing")
