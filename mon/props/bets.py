"""C19-C21: bet sizing."""
from math import erf, sqrt

import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop

END = "event_end_time"


def cdf(z):
    return 0.5 * (1 + erf(z / sqrt(2)))


def ref_signal(p, n):
    if p in (0.0, 1.0):
        return 1.0 if p == 1.0 else -1.0
    return 2 * cdf((p - 1.0 / n) / sqrt(p * (1 - p))) - 1


def ref_active(times, sizes, ends):
    """(time points, mean size of open bets); ends: int64 ns, None when open."""
    if len(times) > 1000:  # what has started less what has ended
        far = np.iinfo(np.int64).max
        a, s = np.asarray(times, dtype=np.int64), np.asarray(sizes, dtype=float)
        e = np.array([far if v is None else v for v in ends], dtype=np.int64)
        a, s, e0 = a[e > a], s[e > a], e[e > a]
        pts = np.unique(np.concatenate((np.asarray(times, dtype=np.int64), e[e < far])))

        def upto(key):
            o = np.argsort(key, kind="stable")
            k = np.searchsorted(key[o], pts, "right")
            return k, np.concatenate(([0.0], np.cumsum(s[o])))[k]

        (n1, s1), (n2, s2) = upto(a), upto(e0)
        return pts, np.where(n1 > n2, (s1 - s2) / np.maximum(n1 - n2, 1), 0.0)
    pts = sorted(set(times) | {e for e in ends if e is not None})
    out = []
    for t in pts:
        act = [s for a, s, e in zip(times, sizes, ends) if a <= t and (e is None or e > t)]
        out.append(sum(act) / len(act) if act else 0.0)
    return np.array(pts, dtype=np.int64), np.array(out)


def discrete_ok(value, got, step, slack=1e-9):
    """got is the nearest multiple of step to value, to three decimals and within -1 and 1."""
    k0 = np.floor(value / step)
    cand = [k0 - 1, k0, k0 + 1, k0 + 2]
    d = [abs(value - k * step) for k in cand]
    best = min(d)
    for k, dist in zip(cand, d):
        if dist <= best + slack:
            x = k * step
            # rounding to three decimals, then the limits
            for r in (np.floor(x * 1000 + 0.5 - 1e-6) / 1000, np.floor(x * 1000 + 0.5 + 1e-6) / 1000, np.ceil(x * 1000 - 0.5 - 1e-6) / 1000, np.ceil(x * 1000 - 0.5 + 1e-6) / 1000):
                if abs(min(1.0, max(-1.0, r)) - got) < 1e-7:
                    return True
    return False


def draw_bets(rng, max_n=30, long=None):
    n = int(rng.integers(1, max_n))
    if rng.random() < 0.01:  # long histories
        n = int(rng.integers(260, 600))
    n = long or n
    index = gen.time_index(rng, n)
    S = index.asi8
    kind = gen.pick(rng, "horizon", "ragged", "open", "mixed", "instant", "ties", "same-end")
    j = rng.integers(0, 40 if n > 5000 else max(9, n // 2 if n > 200 else 0), n)
    E = S[np.minimum(n - 1, np.arange(n) + j)].copy()
    if kind == "horizon":
        E = S[np.minimum(n - 1, np.arange(n) + int(rng.integers(1, 6)))].copy()
    elif kind == "instant":
        E = S.copy()
    elif kind == "same-end":
        E = np.full(n, S[-1])
    elif kind == "mixed":
        E = E + rng.integers(0, 10**5, n) * gen.MS
    ends = pd.Series(pd.DatetimeIndex(E), index=index)
    if kind in ("open", "mixed"):
        ends[rng.random(n) < 0.3] = pd.NaT
    if kind == "open" and rng.random() < 0.2:
        ends[:] = pd.NaT
    return index, ends, kind


def end_list(ends):
    return [None if pd.isna(v) else pd.Timestamp(v).value for v in ends]


@prop(
    "C19", quick=1800, thorough=60000, workers=6,
    rule="a case is one set of predictions and probabilities with one combination of options; the result is recomputed from the "
    "formula, the averaging and the discretisation in that order; non-trivial: a probability strictly between 0 and 1 "
    "(distinct by data and options)",
    assumptions=["predictions in {-1, 0, 1}, probabilities in [0, 1], at least two classes", "unique increasing times",
                 "values that are halfway between two steps to within 1e-9 may be rounded either way"],
)
def c19(case):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

    rng = case.rng
    index, ends, kind = draw_bets(rng, long=gen.long_n(case, every=300, high=3000))
    n = len(index)
    k = int(gen.pick(rng, 2, 2, 3, 3, 5))
    p = rng.random(n)
    m = gen.pick(rng, "uniform", "edge", "extreme", "classes")
    if m == "edge":
        p = rng.choice([0.0, 1.0, 0.5, 1.0 / k, 1e-9, 1 - 1e-9, 1e-300, 0.999999], n)
    elif m == "extreme":
        p = np.where(rng.random(n) < 0.5, 1 - 10.0 ** -rng.integers(1, 17, n), 10.0 ** -rng.integers(1, 17, n))
    elif m == "classes":
        p = np.maximum(p, 1.0 / k)
    pred = rng.choice([-1, 0, 1], n) if rng.random() < 0.6 else rng.choice([0, 1], n)
    if rng.random() < 0.4:
        pred = pred.astype(float)
    meta, avg, disc = rng.random() < 0.5, rng.random() < 0.45, rng.random() < 0.4
    step = float(gen.pick(rng, 0.1, 0.25, 0.05, 0.3, float(rng.uniform(0.01, 0.99))))
    custom = rng.random() < 0.35
    names = dict(probability_column_name="p", prediction_column_name="cls", side_column_name="dir", event_end_time_column_name="t1", bet_size_column_name="sz") if custom else {}
    pc, cc, sc, ec = ("p", "cls", "dir", "t1") if custom else ("prob", "pred", "side", END)
    X = pd.DataFrame({pc: p, cc: pred}, index=index)
    side = rng.choice([-1, 0, 1], n)
    if meta or rng.random() < 0.3:
        X[sc] = side
    if avg or rng.random() < 0.3:
        X[ec] = ends.values
    kw = dict(num_classes=k, **names)
    for name, on in (("meta_labeling", meta), ("average_active", avg), ("discretise", disc)):
        if on:
            kw[name] = True
    if disc:
        kw["step_size"] = step
    case.param(n=n, probabilities=m, ends=kind, **{a: b for a, b in kw.items() if not a.endswith("name")}, custom_names=custom)
    tr = BetSizingFromProbabilities(**kw)
    before = X.copy()
    out = tr.transform(X)
    case.check(gen.same(before, X), "input-changed", "input changed")
    sig = np.array([float(c) * ref_signal(float(v), k) for c, v in zip(pred, p)])
    if meta:
        sig = sig * side
    if avg:
        t, sig = ref_active(list(index.asi8), list(sig), end_list(ends))
    else:
        t = index.asi8
    if not case.check(isinstance(out, pd.Series) and len(out) == len(t) and np.array_equal(pd.DatetimeIndex(out.index).asi8, t), "index", lambda: f"{len(out)} sizes, expected {len(t)}"):
        return
    got = out.values.astype(float)
    case.check((got >= 0).all() and (got <= 1).all(), "range", lambda: f"sizes {got.min()}..{got.max()}")
    if disc:
        ok = [discrete_ok(v, g, step) or discrete_ok(v, -g, step) for v, g in zip(sig, got)]
        case.check(all(ok), "value", lambda: f"signed size {sig[ok.index(False)]} with step {step} gives {got[ok.index(False)]}")
    else:
        atol = 1e-12 if n < 1000 else 1e-10
        case.check(gen.close(got, np.abs(sig), 1e-7, atol), "value", lambda: gen.first_diff(got, np.abs(sig), 1e-7, atol))
    case.event("sizes", len(got))
    r = rng.random()
    if r < 0.1:
        case.refuses("missing-column", lambda: tr.transform(X.drop(columns=gen.pick(rng, pc, cc))))
    elif r < 0.2 and meta:
        bad = X.copy()
        bad[sc] = bad[sc].astype(float)
        bad.iloc[int(rng.integers(n)), bad.columns.get_loc(sc)] = float(rng.choice([2, 0.5, -2]))
        case.refuses("bad-side", lambda: tr.transform(bad))
        case.refuses("missing-side", lambda: tr.transform(X.drop(columns=sc)))
    elif r < 0.3:
        case.refuses("bad-step", lambda: BetSizingFromProbabilities(num_classes=k, discretise=True, step_size=gen.pick(rng, 0, 1, 1.5, -0.1, None)))
    if ((p > 0) & (p < 1)).any():
        case.seen(p, pred, side if meta else 0, sorted(kw.items()), t)


@prop(
    "C20", quick=2000, thorough=60000, workers=6,
    rule="a case is one set of bets; the average at every start and end time is recomputed by counting open bets; non-trivial: "
    "two bets open at once (distinct by times and sizes)",
    assumptions=["millisecond resolution, times after 1970"],
)
def c20(case):
    from mizarlabs.transformers.trading.bet_sizing import avg_active_signals

    rng = case.rng
    index, ends, kind = draw_bets(rng, 45, long=gen.long_n(case, every=300, high=3000))
    n = len(index)
    S = index
    if rng.random() < 0.35:  # several bets start at the same time
        S = index[np.sort(rng.integers(0, n, n))]
        e = ends.values.copy()
        late = pd.isna(e) | (e >= S.values)
        e = np.where(late, e, S.values)
        ends = pd.Series(e, index=S)
        kind += "+same-start"
    sizes = gen.pick(rng, rng.uniform(-1, 1, n), rng.choice([-1.0, 0.0, 1.0, 0.5], n), rng.uniform(-1, 1, n) * 1e-9)
    p = np.arange(n)
    if rng.random() < 0.3:
        p = rng.permutation(n)
        kind += "+unsorted"
    custom = rng.random() < 0.3
    ec, bc = ("t1", "size") if custom else (END, "bet_size")
    X = pd.DataFrame({bc: sizes[p], ec: ends.values[p]}, index=S[p])
    X[ec] = pd.to_datetime(X[ec])
    if rng.random() < 0.3:
        X = X[[ec, bc]]
    before = X.copy()
    out = avg_active_signals(X, ec, bc) if custom else avg_active_signals(X)
    case.check(gen.same(before, X), "input-changed", "input changed")
    t, want = ref_active(list(X.index.asi8), list(X[bc].values), end_list(X[ec]))
    case.param(n=n, bets=kind)
    if not case.check(len(out) == len(t) and np.array_equal(pd.DatetimeIndex(out.index).asi8, t), "times", lambda: f"{len(out)} times, expected {len(t)}"):
        return
    got = out.values.astype(float)
    atol = 1e-12 if n < 1000 else 1e-10
    case.check(gen.close(got, want, 1e-9, atol), "value", lambda: f"{kind}: " + gen.first_diff(got, want, 1e-9, atol))
    case.event("times", len(t))
    case.event("open_ended", X[ec].isna().sum())
    if n > 1:
        case.seen(X.index.asi8, X[bc].values, end_list(X[ec]))


@prop(
    "C21", quick=2500, thorough=80000, workers=6,
    rule="a case is one signal and step size; every value is compared with the nearest multiples; non-trivial: a value that moved "
    "(distinct by signal and step)",
    assumptions=["values halfway between two multiples to within 1e-9 may be rounded either way"],
)
def c21(case):
    from mizarlabs.transformers.trading.bet_sizing import discretise_signal

    rng = case.rng
    n = gen.long_n(case, huge=(66000, 70000)) or int(rng.integers(1, 60))
    step = float(gen.pick(rng, 0.1, 0.2, 0.25, 0.5, 0.3, 0.7, 0.01, 0.001, 0.999, float(rng.uniform(1e-3, 0.999)), float(rng.uniform(0.3, 0.999))))
    kind = gen.pick(rng, "uniform", "multiples", "halves", "edges", "wide")
    if kind == "uniform":
        s = rng.uniform(-1, 1, n)
    elif kind == "multiples":
        s = np.clip(rng.integers(-12, 13, n) * step, -1, 1)
    elif kind == "halves":
        s = np.clip((rng.integers(-8, 8, n) + 0.5) * step + rng.choice([-1e-6, 0, 1e-6], n), -1, 1)
    elif kind == "edges":
        s = rng.choice([-1.0, 1.0, 0.0, 0.999, -0.999, 1e-12, -1e-12, step / 2, 1 - step / 2], n)
    else:
        s = rng.uniform(-3, 3, n)
    X = pd.Series(s, index=gen.time_index(rng, n), name=gen.pick(rng, None, "bet_size"))
    case.param(n=n, step=step, signal=kind)
    before = X.copy()
    out = discretise_signal(X, step)
    case.check(gen.same(before, X), "input-changed", "the signal changed")
    if not case.check(isinstance(out, pd.Series) and out.index.equals(X.index), "index", "other index"):
        return
    got = out.values.astype(float)
    ok = [discrete_ok(v, g, step) for v, g in zip(s, got)]
    case.check(all(ok), "nearest", lambda: f"{s[ok.index(False)]!r} with step {step} gives {got[ok.index(False)]!r}")
    case.check((np.abs(got) <= 1).all(), "range", "outside -1 and 1")
    o = np.argsort(s, kind="stable")
    case.check((np.diff(got[o]) >= -1e-12).all(), "monotone", "not monotone")
    inside = np.abs(s) <= 1
    case.check((np.abs(got - s)[inside] <= step / 2 + 0.0005 + 1e-9).all(), "distance", "moved by more than half a step")
    if rng.random() < 0.15:
        bad = float(gen.pick(rng, 0.0, 1.0, 1.0001, -0.1, 2.0, -1e-9))
        case.refuses("bad-step", lambda: discretise_signal(X, bad))
    case.event("values", n)
    if (np.abs(got - s) > 1e-6).any():
        case.seen(s, step)
