"""C17-C18: sample weights."""
import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop
from mon.props.sampling import END, draw_labels, long_labels, ref_matrix, ref_spans, ref_uniqueness, ref_uniqueness_spans


@prop(
    "C17", quick=1800, thorough=60000, workers=6,
    rule="a case is one bar series whose bars are labels with end times; every weight is compared with an attribution counted "
    "label by label, and again with rescaled prices; non-trivial: overlapping labels (distinct by prices and times)",
    assumptions=["bars in time order with unique times", "positive prices"],
)
def c17(case):
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns

    rng = case.rng
    n = int(rng.integers(1, gen.pick(rng, 6, 25, 60)))
    if case.idx % 50 == 7:  # long histories
        n = int(rng.integers(270, 700))
    many = long_labels(case, rng, None)
    if many:
        n = len(many[0])
    if many:
        index, close = pd.DatetimeIndex(many[0]), gen.prices(rng, n)
    elif case.idx % 10 == 0:
        b = gen.real_bars()
        s = int(rng.integers(0, len(b) - n))
        index, close = b.index[s : s + n], b["close"].values[s : s + n].astype(float)
    else:
        index, close = gen.time_index(rng, n), gen.prices(rng, n)
    pos = np.arange(n)
    kind = gen.pick(rng, "single", "horizon", "ragged", "long", "beyond", "between")
    S = index.asi8
    if many:
        kind, E = "many labels", many[1]
    elif kind == "single":
        E = S.copy()
    elif kind == "horizon":
        E = S[np.minimum(n - 1, pos + int(rng.integers(1, 10)))]
    elif kind == "long":
        E = np.full(n, S[-1])
    else:
        E = S[np.minimum(n - 1, pos + rng.integers(0, max(12, n // 2), n))]
        if kind == "beyond":
            E = E + (rng.random(n) < 0.3) * rng.integers(0, 10**9, n) * gen.MS
        if kind == "between":
            E = np.maximum(S, E + rng.integers(-500, 500, n) * gen.MS)
    ecol, ccol = gen.pick(rng, (END, "close"), (END, "close"), ("t1", "px"))
    X = pd.DataFrame({ccol: close, ecol: pd.DatetimeIndex(E)}, index=index)
    if rng.random() < 0.3:
        X["label"] = 1
    case.param(n=n, ends=kind, columns=[ecol, ccol])
    tr = SampleWeightsByReturns() if ecol == END else SampleWeightsByReturns(event_end_time_column_name=ecol, close_column_name=ccol)
    before = X.copy()
    out = tr.transform(X)
    case.check(gen.same(before, X), "input-changed", "input changed")
    if not case.check(isinstance(out, pd.Series) and out.index.equals(X.index), "index", "not indexed like the input"):
        return
    lr = np.concatenate(([0.0], np.diff(np.log(close))))
    if many:
        conc = (np.searchsorted(S, S, "right") - np.searchsorted(np.sort(E), S, "left")).astype(float)
        share = lr / conc
        want = np.array([abs(share[i:j].sum()) for i, j in enumerate(np.searchsorted(S, E, "right"))])
    else:
        conc = np.array([((S <= t) & (E >= t)).sum() for t in S], dtype=float)
        want = np.array([abs((lr / conc)[(S >= S[i]) & (S <= E[i])].sum()) for i in range(n)])
    got = out.values.astype(float)
    case.check(gen.close(got, want, 1e-7, 1e-11), "value", lambda: f"{kind}: " + gen.first_diff(got, want, 1e-7, 1e-11))
    case.check((got >= 0).all(), "negative", "negative weight")
    f = float(gen.pick(rng, 2.0, 1e-3, 17.3))
    Z = X.copy()
    Z[ccol] = Z[ccol] * f
    scaled = tr.transform(Z).values
    case.check(gen.close(scaled, got, 1e-7, 1e-10), "rescaled", lambda: f"prices times {f}: " + gen.first_diff(scaled, got, 1e-7, 1e-10))
    if rng.random() < 0.1:
        case.refuses("missing-column", lambda: tr.transform(X.drop(columns=gen.pick(rng, ccol, ecol))))
    case.event("weights", n)
    if conc.max() > 1:
        case.seen(S, E, close)


@prop(
    "C18", quick=1500, thorough=50000, workers=6,
    rule="a case is one set of labels and decay factor; every weight is compared with the line through independently "
    "accumulated uniqueness; non-trivial: at least two labels (distinct by times and factor)",
    assumptions=["decay factors in (-1, 1]", "unique label start times"],
)
def c18(case):
    from mizarlabs.transformers.sample_weights import SampleWeightsByTimeDecay

    rng = case.rng
    ends, index, kind = draw_labels(rng, unique=True)
    many = long_labels(case, rng, END)
    if many:
        (ends, index), kind = many, "many labels"
    col = gen.pick(rng, END, END, "t1")
    X = pd.DataFrame({col: ends.values, "x": rng.normal(size=len(ends))}, index=ends.index)
    c = float(gen.pick(rng, 0.0, 1.0, 0.5, -0.5, float(rng.uniform(-0.999, 1)), float(rng.uniform(-0.95, 0)), -0.01, 0.001, -0.97, -0.998))
    case.param(labels=len(X), factor=c, shape=kind)
    tr = SampleWeightsByTimeDecay(c) if col == END else SampleWeightsByTimeDecay(c, col)
    before = X.copy()
    out = tr.transform(X)
    case.check(gen.same(before, X), "input-changed", "input changed")
    if not case.check(isinstance(out, pd.Series) and len(out) == len(X) and out.index.sort_values().equals(X.index.sort_values()), "index", "not one weight per label"):
        return
    if many:
        u = pd.Series(ref_uniqueness_spans(*ref_spans(X[col], X.index.asi8))[0], index=X.index).sort_index()
    else:
        t, M = ref_matrix(X[col], X.index.asi8)
        u = pd.Series(ref_uniqueness(M), index=X.index).sort_index()
    cum = u.cumsum()
    T = cum.iloc[-1]
    if c >= 0:
        want = c + (1 - c) * cum / T
    else:
        want = ((cum / T + c) / (1 + c)).clip(lower=0)
    got = out.reindex(want.index).values.astype(float)
    tol = 1e-9 / (1 + c) if c < 0 else 1e-9
    case.check(gen.close(got, want.values, 1e-8, tol), "value", lambda: f"factor {c}: " + gen.first_diff(got, want.values, 1e-8, tol))
    case.check((got >= 0).all() and (np.diff(got) >= -1e-12).all() and abs(got[-1] - 1) < 1e-9, "shape", "negative, decreasing or newest not one")
    if rng.random() < 0.15:
        case.refuses("factor-above-one", lambda: SampleWeightsByTimeDecay(1.0 + float(rng.uniform(1e-6, 2)), col).transform(X))
    if rng.random() < 0.1:
        case.refuses("missing-column", lambda: tr.transform(X.drop(columns=col)))
    case.event("weights", len(X))
    case.event("zero_weights", (want == 0).sum())
    if len(X) > 1:
        case.seen(X.index.asi8, pd.DatetimeIndex(X[col]).asi8, c)
