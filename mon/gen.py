"""Hostile workload generators shared by the properties."""
import os

import numpy as np
import pandas as pd

from mon import core

MS = 1_000_000  # ns


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def time_index(rng, n, kind=None, start=None):
    """Strictly increasing tz-naive bar times with millisecond resolution."""
    kind = kind or pick(rng, "regular", "jitter", "bursty", "gaps", "dense")
    start = start or pd.Timestamp("2019-01-01") + pd.Timedelta(
        int(rng.integers(0, 10**9)), "ms"
    )
    if kind == "regular":
        step = np.full(n, int(pick(rng, 60_000, 3_600_000, 1, 86_400_000, 900_000)))
    elif kind == "jitter":
        step = rng.integers(1, 7_200_000, n)
    elif kind == "bursty":
        step = np.where(rng.random(n) < 0.7, rng.integers(1, 50, n), rng.integers(10**6, 10**8, n))
    elif kind == "gaps":
        step = np.where(rng.random(n) < 0.9, 3_600_000, rng.integers(10**8, 10**9, n))
    else:
        step = rng.integers(1, 4, n)
    t = np.cumsum(step).astype(np.int64) * MS
    return _maybe_freq(rng, pd.DatetimeIndex(start.value + t), kind)


def _maybe_freq(rng, index, kind):
    """Some regular indices also carry their frequency, as those of date_range do."""
    if kind == "regular" and len(index) > 2 and rng.random() < 0.6:
        return pd.DatetimeIndex(index, freq="infer")
    return index


def day_index(rng, n):
    """Bars spanning many days, several per day, so that one-day returns exist."""
    kind = pick(rng, "regular", "jitter", "gaps", "exact")
    h = 3_600_000
    if kind == "regular":
        step = np.full(n, int(pick(rng, h, 4 * h, 6 * h, 24 * h, 30 * h)))
    elif kind == "jitter":
        step = rng.integers(h // 10, 12 * h, n)
    elif kind == "gaps":
        step = np.where(rng.random(n) < 0.85, 3 * h, rng.integers(20 * h, 100 * h, n))
    else:
        step = np.where(rng.random(n) < 0.5, 12 * h, 24 * h)
    t = np.cumsum(step).astype(np.int64) * MS
    start = pd.Timestamp("2018-06-01") + pd.Timedelta(int(rng.integers(0, 10**8)), "ms")
    return _maybe_freq(rng, pd.DatetimeIndex(start.value + t), kind)


def prices(rng, n, kind=None):
    kind = kind or ("walk" if n > 1000 else None) or pick(rng, "walk", "walk", "vol", "trend", "dyadic", "plateau", "jump", "tiny", "huge")
    if kind == "walk":
        p = 100 * np.exp(np.cumsum(rng.normal(0, 0.01, n)))
    elif kind == "vol":
        s = np.abs(rng.normal(0.01, 0.03, n)) + 1e-4
        p = 50 * np.exp(np.cumsum(rng.normal(0, 1, n) * s))
    elif kind == "trend":
        p = 100 * np.exp(np.cumsum(rng.normal(rng.choice([-1, 1]) * 0.01, 0.005, n)))
    elif kind == "dyadic":
        p = 64.0 * 2.0 ** np.cumsum(rng.integers(-1, 2, n)).clip(-5, 5) + rng.integers(0, 4, n) * 0.25
    elif kind == "plateau":
        p = np.repeat(100 + rng.integers(-20, 20, n // 3 + 1) * 0.5, 3)[:n].astype(float)
        rep = rng.random(n) < 0.3
        p = p + np.where(rep, rng.integers(-3, 4, n) * 0.5, 0)
    elif kind == "jump":
        p = 100 * np.exp(np.cumsum(np.where(rng.random(n) < 0.1, rng.normal(0, 0.2, n), rng.normal(0, 0.002, n))))
    elif kind == "calm":  # moves of a few parts in 1e4 to 1e9
        p = 1000.0 * (1 + 10.0 ** -rng.integers(4, 10) * np.cumsum(rng.integers(-2, 3, n)))
    elif kind == "tiny":
        p = 1e-6 * np.exp(np.cumsum(rng.normal(0, 0.02, n)))
    else:
        p = 1e6 * np.exp(np.cumsum(rng.normal(0, 0.02, n)))
    return np.maximum(np.asarray(p, dtype=float), 1e-9)


_real = {}


def real_bars():
    """The dollar bars that come with the repository (test data)."""
    if "bars" not in _real:
        path = os.path.join(core.REPO, "mizarlabs/tests/data/dollar_bar_dataframe.pkl")
        df = pd.read_pickle(path)
        if "first_timestamp" in df.columns:
            df = df.set_index(pd.to_datetime(df["first_timestamp"], unit="ms"))
        obj = [c for c in df.columns if df[c].dtype == object]
        for c in obj:
            df[c] = pd.to_numeric(df[c], errors="ignore")
        if df.index.tz is not None:
            df.index = df.index.tz_localize(None)
        df = df[~df.index.duplicated()].sort_index()
        df.index = pd.DatetimeIndex((df.index.asi8 // MS) * MS)
        df = df[~df.index.duplicated()]
        df.index.name = None
        _real["bars"] = df
    return _real["bars"]


def long_n(case, at=7, every=90, high=4200, huge=(33000, 40000)):
    """Length of a long history in a few cases of every run, else None.

    Case `at` has `huge` bars, mostly more than a 15-bit counter reaches; every `every`-th case some thousand.
    """
    if case.idx == at:
        n = int(case.rng.integers(*huge))
        case.event("histories_over_32768_bars" if n > 32768 else "histories_over_1000_bars")
        return n
    if case.idx % every == at + every // 2:
        case.event("histories_over_1000_bars")
        return int(case.rng.integers(1050, high))
    return None


def bars(rng, n, index=None, integer=False):
    """A full bar data frame with the columns the library documents."""
    index = time_index(rng, n) if index is None else index
    c = np.round(prices(rng, n, "walk")) + 20 if integer else prices(rng, n, "walk" if n > 1000 else None)
    o = np.concatenate(([c[0]], c[:-1]))
    wig = 1 + np.abs(rng.normal(0, 0.01, n))
    h = np.maximum(o, c) * wig
    l = np.minimum(o, c) / (1 + np.abs(rng.normal(0, 0.01, n)))
    bb = rng.uniform(0.1, 10, n)
    bs = rng.uniform(0.1, 10, n)
    if rng.random() < 0.3:  # one-sided bars
        bs[rng.random(n) < 0.2] = 0.0
    v = c * rng.uniform(0.99, 1.01, n)
    return pd.DataFrame(
        dict(
            open=o, high=h, low=l, close=c,
            base_asset_volume=bb + bs, base_asset_buy_volume=bb, base_asset_sell_volume=bs,
            quote_asset_volume=(bb + bs) * v, quote_asset_buy_volume=bb * v,
            quote_asset_sell_volume=bs * v,
            num_buy_ticks=rng.integers(1, 50, n), num_sell_ticks=rng.integers(1, 50, n),
            num_ticks=rng.integers(2, 100, n), volume=bb + bs,
        ),
        index=index,
    )


def snapshot(o):
    """Deep copy of pandas / numpy data for comparison after a call."""
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return o.copy(deep=True)
    if hasattr(o, "toarray"):
        return o.copy()
    if isinstance(o, pd.Index):
        return o.copy()
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(snapshot(v) for v in o)
    return o


def same(a, b):
    """Exact equality of pandas / numpy data, NaN equal to NaN."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "toarray"):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and bool((a != b).nnz == 0)
    if isinstance(a, pd.DataFrame):
        return (
            isinstance(b, pd.DataFrame)
            and same(a.columns, b.columns)
            and same(a.index, b.index)
            and same(a.attrs, b.attrs)
            and (a.dtypes == b.dtypes).all()
            and a.equals(b)
        )
    if isinstance(a, pd.Series):
        return (
            isinstance(b, pd.Series) and a.dtype == b.dtype and same(a.index, b.index)
            and a.name == b.name and a.attrs == b.attrs and a.equals(b)
        )
    if isinstance(a, pd.Index):
        return isinstance(b, pd.Index) and a.equals(b) and list(a.names) == list(b.names)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "f":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if a is None or b is None:
        return a is b
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def first_diff(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    bad = np.flatnonzero(~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if not len(bad):
        return "equal"
    i = bad[0]
    return f"{len(bad)} of {len(a)} differ, first at {i}: got {a[i]!r}, expected {b[i]!r}"
