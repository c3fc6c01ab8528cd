"""C10-C13: CUSUM filter, indicator matrix, average uniqueness, sequential bootstrap."""
import numpy as np
import pandas as pd

from mon import gen
from mon.core import StopCase, prop

END = "event_end_time"


# ---------------------------------------------------------------- CUSUM
def ref_cusum(x, thr, exact):
    """Positions selected; None when a comparison is not decidable in floating point."""
    up = dn = 0.0
    out, state = [], []
    scale = np.abs(x).max() * 1e-9 + 1e-300
    for i in range(1, len(x)):
        d = x[i] - x[i - 1]
        up, dn = max(0.0, up + d), min(0.0, dn + d)
        if not exact and (abs(-dn - thr) < scale or abs(up - thr) < scale):
            return None
        both = dn < -thr and up > thr
        if dn < -thr:
            dn = 0.0
            out.append(i)
        elif up > thr:
            up = 0.0
            out.append(i)
        state.append((up, dn, both))
    return out


@prop(
    "C10", quick=2500, thorough=80000, workers=6,
    rule="a case is one series and threshold; the selected bars are compared with an accumulator run bar by bar, and with the "
    "selection on a prefix and on another continuation; non-trivial: at least one bar selected (distinct by series and threshold)",
    assumptions=["unique, increasing bar times", "exact ties only on exactly representable values"],
)
def c10(case):
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

    rng = case.rng
    n = int(rng.integers(1, gen.pick(rng, 6, 40, 250) if rng.random() < 0.98 else 3000))
    kind = gen.pick(rng, "steps", "steps", "runs", "alternating", "plateau", "prices", "prices", "zero", "real")
    long = gen.long_n(case, every=300, high=6000, huge=(66000, 80000))
    if long:
        n, kind = long, gen.pick(rng, "steps", "runs", "plateau")
    exact = kind not in ("prices", "real")
    if kind == "steps":
        x = np.cumsum(rng.integers(-4, 5, n)) * 0.25
    elif kind == "runs":
        x = np.cumsum(np.repeat(rng.choice([-1, 1], n), rng.integers(1, 9, n))[:n] * rng.integers(0, 3, n)) * 0.5
    elif kind == "alternating":
        x = np.cumsum(np.where(np.arange(n) % 2, 1, -1) * rng.integers(1, 9, n)) * 0.5
    elif kind == "plateau":
        x = np.cumsum(np.where(rng.random(n) < 0.7, 0, rng.integers(-6, 7, n))) * 1.0
    elif kind == "zero":
        x = np.zeros(n) + 5.0
    elif kind == "real":
        b = gen.real_bars()["close"].values.astype(float)
        s = int(rng.integers(0, max(1, len(b) - n)))
        x = b[s : s + n]
        n = len(x)
    else:
        x = gen.prices(rng, n)
    x = x.astype(float)
    if exact and (long or rng.random() < 0.12):  # small moves at a high level
        x = x + 2.0 ** int(rng.choice([12, 26, 34]))
    if exact and rng.random() < 0.15:  # the same series in tiny or huge units
        unit = 2.0 ** int(rng.choice([-60, -30, -20, 30]))
    else:
        unit = 1.0
    x = x * unit
    if exact:
        thr = float(gen.pick(rng, 0, 0.25, 0.5, 1, 1.5, 2, 4, 8))
        thr *= unit
        if unit == 1.0 and rng.random() < 0.2:
            x = np.round(x)
            x = x.astype(np.int64)
    else:
        thr = float(np.std(np.diff(x)) * rng.uniform(0, 6)) if n > 2 else 0.01
    X = pd.Series(x, index=gen.time_index(rng, n), name=gen.pick(rng, None, "close"))
    case.param(n=n, series=kind, threshold=thr)
    before = X.copy()
    flt = CUSUMFilter(thr)
    got = flt.transform(X)
    case.check(gen.same(before, X), "input-changed", "input changed")
    want = ref_cusum(x.astype(float), thr, exact)
    if want is None:
        case.event("skipped_knife_edge")
        return
    case.check(isinstance(got, pd.DatetimeIndex), "type", f"result is {type(got)}")
    case.check(
        len(got) == len(want) and (got == X.index[want]).all(), "selection",
        lambda: f"selected bars {list(X.index.get_indexer(got))[:20]}, expected {want[:20]} (threshold {thr})",
    )
    case.event("bars_selected", len(want))
    case.event("bars_seen", n)
    if n > 2:
        m = int(rng.integers(1, n))
        part = flt.transform(X.iloc[:m])
        expect = got[got <= X.index[m - 1]]
        case.check(len(part) == len(expect) and (part == expect).all(), "prefix", lambda: f"cut at {m}: {len(part)} bars, whole series {len(expect)}")
        z = X.copy()
        z.iloc[m:] = (z.iloc[m:].values[::-1] + rng.integers(-3, 4) * unit).astype(z.dtype)
        alt = flt.transform(z)
        alt = alt[alt <= X.index[m - 1]]
        case.check(len(alt) == len(expect) and (alt == expect).all(), "altered-future", f"another continuation from {m} changes earlier selections")
        case.event("continuations", 2)
    if want:
        case.seen(x, thr)


# ---------------------------------------------------------------- labels
def draw_labels(rng, max_n=25, unique=False):
    """Series of end times indexed by start times, and price bars."""
    nb = int(rng.integers(2, 70))
    n = int(rng.integers(1, max_n + 1))
    if rng.random() < 0.03:  # long histories, crowded bars
        nb = int(rng.integers(260, 800))
        n = int(rng.integers(1, gen.pick(rng, 4, 300)))
    index = gen.time_index(rng, nb)
    kind = gen.pick(rng, "ragged", "single", "nested", "identical", "long", "disjoint", "ties", "horizon")
    if kind == "disjoint":
        cuts = np.sort(rng.choice(nb, size=min(nb, 2 * n), replace=False))
        k = len(cuts) // 2
        st, en = cuts[0 : 2 * k : 2], cuts[1 : 2 * k : 2]
        if k == 0:
            st, en = np.array([0]), np.array([1])
    else:
        st = rng.integers(0, nb, n)
        if kind == "single":
            en = st.copy()
        elif kind == "nested":
            st = np.sort(st)
            en = (nb - 1) - st // 2
            en = np.maximum(en, st)
        elif kind == "identical":
            st = np.full(n, st[0])
            en = np.full(n, int(rng.integers(st[0], nb)))
        elif kind == "long":
            en = np.full(n, nb - 1)
        elif kind == "ties":
            st = st // 4 * 4
            en = np.minimum(nb - 1, st + 4)
        elif kind == "horizon":
            en = np.minimum(nb - 1, st + int(rng.integers(1, 12)))
        else:
            en = np.minimum(nb - 1, st + rng.integers(0, max(15, nb // 2), n))
    if unique:
        _, first = np.unique(st, return_index=True)
        first = np.sort(first)
        st, en = st[first], en[first]
    S, E = index.asi8[st].copy(), index.asi8[en].copy()
    off = rng.random() < 0.35
    if off:  # ends (and starts) that are no bars
        E = E + np.where(rng.random(len(E)) < 0.5, rng.integers(0, 1000, len(E)) * gen.MS, 0)
        if not unique and rng.random() < 0.5:
            S = np.minimum(S + rng.integers(0, 20, len(S)) * gen.MS, E)
    order = np.argsort(S, kind="stable") if rng.random() < 0.6 else rng.permutation(len(S))
    ends = pd.Series(pd.DatetimeIndex(E[order]), index=pd.DatetimeIndex(S[order]), name=END)
    return ends, index, kind


def long_labels(case, rng, ends, huge=(33000, 36000)):
    """As many labels as a long history has: (end times by start time, bars), or None."""
    n = gen.long_n(case, every=400, high=4000, huge=huge)
    if n is None:
        return None
    index = gen.time_index(rng, n)
    S = index.asi8
    reach = int(gen.pick(rng, 2, 6, 30))
    E = S[np.minimum(n - 1, np.arange(n) + rng.integers(0, reach, n))].copy()
    few = rng.integers(0, n, 3)  # and some that last for most of it
    E[few] = S[np.minimum(n - 1, few + n // 2)]
    if rng.random() < 0.5:
        E = E + np.where(rng.random(n) < 0.2, rng.integers(0, 1000, n) * gen.MS, 0)
    if ends:
        return pd.Series(pd.DatetimeIndex(E), index=index, name=ends), index
    return S, E


def ref_spans(ends, bars):
    """(times, first and last row of every label) of the indicator matrix."""
    S, E = ends.index.asi8, pd.DatetimeIndex(ends.values).asi8
    t = np.unique(np.concatenate((S, E, bars[(bars >= S.min()) & (bars <= E.max())])))
    return t, np.searchsorted(t, S), np.searchsorted(t, E)


def ref_uniqueness_spans(t, a, b):
    step = np.bincount(a, minlength=len(t) + 1)[: len(t) + 1] - np.bincount(b + 1, minlength=len(t) + 1)
    inverse = 1.0 / np.maximum(np.cumsum(step)[: len(t)], 1)
    return np.array([inverse[i: j + 1].mean() for i, j in zip(a, b)]), np.cumsum(step)[: len(t)]


def ref_matrix(ends, bars):
    S, E = ends.index.asi8, pd.DatetimeIndex(ends.values).asi8
    lo, hi = S.min(), E.max()
    t = np.unique(np.concatenate((S, E, bars[(bars >= lo) & (bars <= hi)])))
    return t, ((t[:, None] >= S[None, :]) & (t[:, None] <= E[None, :])).astype(float)


@prop(
    "C11", quick=2500, thorough=80000, workers=6,
    rule="a case is one set of label start and end times and price bars; every entry of the matrix and its time axis are "
    "compared with the intervals; non-trivial: at least two labels (distinct by start and end times and bars)",
    assumptions=["labels do not end before they start"],
)
def c11(case):
    from mizarlabs.model.bootstrapping import get_ind_matrix

    rng = case.rng
    many = long_labels(case, rng, END)
    if many:
        ends, index = many
        frame = pd.DataFrame({"close": 1.0}, index=index)
        case.param(labels=len(ends), shape="many labels")
        got, axis = get_ind_matrix(ends, frame, END, return_indices=True)
        t, a, b = ref_spans(ends, index.asi8)
        case.check(np.array_equal(pd.DatetimeIndex(axis).asi8, t), "time-axis", lambda: f"{len(axis)} times, expected {len(t)}")
        got = got.tocsc()
        got.sort_indices()
        rows = np.concatenate([np.arange(i, j + 1) for i, j in zip(a, b)])
        ok = got.shape == (len(t), len(ends)) and np.array_equal(np.diff(got.indptr), b - a + 1) and np.array_equal(got.indices, rows) and (got.data == 1).all()
        case.check(ok, "entries", f"the matrix of {len(ends)} labels does not mark their bars")
        case.event("entries", len(rows))
        case.seen(t, a, b)
        return
    ends, index, kind = draw_labels(rng)
    if case.idx % 500 == 33:  # a few labels over many bars
        index = gen.time_index(rng, int(rng.integers(33000, 70000)))
        st = np.sort(rng.integers(0, len(index), 3))
        ends = pd.Series(index[np.maximum(st, rng.integers(0, len(index), 3))], index=index[st], name=END)
    col = gen.pick(rng, END, END, "t1")
    ends = ends.rename(col)
    bars = index[np.sort(rng.choice(len(index), int(rng.integers(1, len(index) + 1)), replace=False))] if rng.random() < 0.4 else index
    if rng.random() < 0.3:  # bars before the first and after the last label
        step = 50 * gen.MS
        bars = pd.DatetimeIndex(np.concatenate((index.asi8[0] - step * np.arange(5, 0, -1), bars.asi8, max(index.asi8[-1], pd.DatetimeIndex(ends.values).asi8.max()) + step * np.arange(1, 6))))
    frame = pd.DataFrame({"close": np.ones(len(bars))}, index=bars)
    case.param(labels=len(ends), bars=len(bars), shape=kind)
    b1, b2 = ends.copy(), frame.copy()
    with_axis = rng.random() < 0.7
    got = get_ind_matrix(ends, frame, col, return_indices=True) if with_axis else get_ind_matrix(ends, frame, col)
    case.check(gen.same(b1, ends) and gen.same(b2, frame), "input-changed", "input changed")
    t, want = ref_matrix(ends, bars.asi8)
    if with_axis:
        got, axis = got
        axis = pd.DatetimeIndex(axis).asi8
        case.check(np.array_equal(axis, t), "time-axis", lambda: f"{len(axis)} times, expected {len(t)}")
    g = np.asarray(got.todense(), dtype=float)
    if case.check(g.shape == want.shape, "shape", f"matrix {g.shape}, expected {want.shape}"):
        case.check(np.array_equal(g, want), "entries", lambda: f"{int((g != want).sum())} entries differ, first at {np.argwhere(g != want)[0]}")
    case.event("entries", want.size)
    if rng.random() < 0.2:
        bad = ends.copy()
        if rng.random() < 0.5:
            bad.iloc[int(rng.integers(len(bad)))] = pd.NaT
        else:
            idx = bad.index.tolist()
            idx[int(rng.integers(len(idx)))] = pd.NaT
            bad.index = pd.DatetimeIndex(idx)
        case.refuses("missing-time", lambda: get_ind_matrix(bad, frame, col))
    if len(ends) > 1:
        case.seen(ends.index.asi8, pd.DatetimeIndex(ends.values).asi8, bars.asi8)


def ref_uniqueness(M):
    conc = M.sum(axis=1)
    return np.array([(1.0 / conc[M[:, j] > 0]).mean() for j in range(M.shape[1])])


@prop(
    "C12", quick=2000, thorough=60000, workers=6,
    rule="a case is one set of labels; the average uniqueness from the transformer and from the matrix is compared with "
    "independently counted concurrency; non-trivial: overlapping labels (distinct by start and end times)",
    assumptions=["the bars a label spans are the times of the indicator matrix: label starts, label ends and price bars"],
)
def c12(case):
    from mizarlabs.model.bootstrapping import calc_average_uniqueness, get_ind_matrix
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness

    rng = case.rng
    many = long_labels(case, rng, END)
    if many:
        ends, index = many
        case.param(labels=len(ends), shape="many labels")
        out = AverageUniqueness().transform(pd.DataFrame({END: ends.values}, index=ends.index))
        case.check(out.index.equals(ends.index), "index", "not indexed like the input")
        want, conc = ref_uniqueness_spans(*ref_spans(ends, index.asi8))
        got = np.asarray(out.values, dtype=float)
        case.check(gen.close(got, want, 1e-7, 1e-9), "value", lambda: gen.first_diff(got, want, 1e-7, 1e-9))
        case.event("labels", len(want))
        case.seen(ends.index.asi8, pd.DatetimeIndex(ends.values).asi8)
        return
    if rng.random() < 0.6:
        ends, index, kind = draw_labels(rng, unique=True)
        col = gen.pick(rng, END, END, "t1")
        X = pd.DataFrame({col: ends.values, "label": rng.choice([-1, 1], len(ends))}, index=ends.index)
        if rng.random() < 0.3:
            X = X[["label", col]]
        before = X.copy()
        tr = AverageUniqueness() if col == END else AverageUniqueness(col)
        out = tr.transform(X)
        case.check(gen.same(before, X), "input-changed", "input changed")
        case.check(isinstance(out, pd.Series) and out.index.equals(X.index), "index", "not indexed like the input")
        t, M = ref_matrix(X[col], X.index.asi8)
        got = np.asarray(out.values, dtype=float)
        if rng.random() < 0.5:  # order of the labels does not matter
            p = rng.permutation(len(X))
            again = tr.transform(X.iloc[p])
            case.check(gen.close(again.reindex(X.index).values, got), "order", "another label order changes the values")
            case.event("reordered")
        if rng.random() < 0.25:
            bad = X.copy()
            bad.iloc[int(rng.integers(len(bad))), bad.columns.get_loc(col)] = pd.NaT
            case.refuses("missing-end", lambda: tr.transform(bad))
        if rng.random() < 0.25:
            dup = pd.concat((X, X.iloc[[int(rng.integers(len(X)))]]))
            case.refuses("duplicated-start", lambda: tr.transform(dup))
        if rng.random() < 0.1:
            case.refuses("missing-column", lambda: tr.transform(X.drop(columns=col)))
        frm = "transformer"
    else:
        ends, index, kind = draw_labels(rng)
        t, M = ref_matrix(ends, index.asi8)
        mat = get_ind_matrix(ends, pd.DataFrame({"close": 1.0}, index=index), END).tocsc()
        got = np.asarray(calc_average_uniqueness(mat), dtype=float).ravel()
        frm = "matrix"
    want = ref_uniqueness(M)
    case.param(labels=len(ends), shape=kind, source=frm)
    case.check(gen.close(got, want, 1e-7, 1e-9), "value", lambda: gen.first_diff(got, want, 1e-7, 1e-9))
    case.check(((got > 0) & (got <= 1 + 1e-9)).all(), "range", lambda: f"values {got.min()}..{got.max()}")
    alone = np.array([M[M[:, j] > 0].sum() == M[:, j].sum() for j in range(M.shape[1])])
    case.check(np.array_equal(np.isclose(got, 1.0, atol=1e-9), alone), "one-iff-alone", "a label alone is not 1, or an overlapping one is")
    case.event("labels", len(want))
    case.event("labels_alone", alone.sum())
    if not alone.all():
        case.seen(ends.index.asi8, pd.DatetimeIndex(ends.values).asi8, frm)


# ------------------------------------------------------- sequential bootstrap
class SpyState(np.random.RandomState):
    """Random state that records the probabilities it is asked to draw with."""

    def __init__(self, seed):
        super().__init__(seed)
        self.log = []

    def choice(self, a, size=None, replace=True, p=None):
        out = super().choice(a, size=size, replace=replace, p=p)
        self.log.append((np.array(a, copy=True), None if p is None else np.array(p, copy=True), np.array(out, copy=True), replace))
        return out


def ref_prob(M, drawn):
    """Draw probabilities given the labels drawn so far."""
    n = M.shape[1]
    conc = M[:, drawn].sum(axis=1) if len(drawn) else np.zeros(M.shape[0])
    u = (1.0 / (conc + 1.0)) @ M / M.sum(axis=0)
    return u / u.sum()


def probs_from_log(log, n):
    """(probability over labels, draws) per recorded call, None when the calls do not show them."""
    steps = []
    for a, p, out, replace in log:
        out = np.atleast_1d(out)
        if not replace and len(out) > 1:
            return None
        full = np.zeros(n)
        a = np.arange(int(a)) if a.ndim == 0 else a
        if a.shape != (n,) or not np.issubdtype(a.dtype, np.integer) or not np.array_equal(np.sort(a), np.arange(n)):
            return None
        full[a] = 1.0 / n if p is None else p
        steps.append((full, out))
    return steps


@prop(
    "C13", quick=900, thorough=30000, workers=6,
    rule="a case is one indicator matrix and random state; the probabilities handed to the random state before every draw are "
    "compared with those given by the history of draws; non-trivial: at least two draws with changing probabilities "
    "(distinct by matrix, draws and refresh interval)",
    assumptions=["uniqueness is computed in single precision: probabilities are compared to one part in 20000",
                 "if the draws are not made through the random state's choice, the distribution of draws over many seeds is compared instead"],
)
def c13(case):
    from mizarlabs.model.bootstrapping import get_ind_matrix, seq_bootstrap

    rng = case.rng
    src = gen.pick(rng, "labels", "labels", "blocks", "random")
    wide = rng.random() < 0.02  # many labels that hardly overlap, many draws between refreshes
    many = case.idx in (7, 107, 207) or rng.random() < 0.003  # hundreds of draws overlap at one bar
    if wide or many:
        src = "blocks"
    if src == "labels":
        ends, index, kind = draw_labels(rng, max_n=gen.pick(rng, 4, 12, 40))
        t, M = ref_matrix(ends, index.asi8)
        mat = get_ind_matrix(ends, pd.DataFrame({"close": 1.0}, index=index), END).tocsc()
    else:
        import scipy.sparse as sp

        T, N = int(rng.integers(1, 30)), int(rng.integers(1, 20))
        if wide:
            T, N = int(rng.integers(100, 300)), int(rng.integers(100, 250))
        if many:
            T, N = int(rng.integers(2, 6)), int(rng.integers(2, 5))
        M = np.zeros((T, N))
        for j in range(N):
            a = int(rng.integers(0, T))
            M[a : a + int(rng.integers(1, 6 if wide else T + 1)), j] = 1
        if src == "random":
            M = np.maximum(M, (rng.random((T, N)) < 0.2).astype(float))
        mat = sp.csc_matrix(M)
    n = M.shape[1]
    length = None if rng.random() < 0.3 else int(rng.integers(1, gen.pick(rng, 4, 20, 3 * n + 2)))
    every = int(gen.pick(rng, 1, 1, 1, 2, 3, int(rng.integers(1, 12))))
    if wide or rng.random() < 0.03:  # many draws of few labels, many draws between refreshes
        length = int(rng.integers(150, 420))
        every = int(gen.pick(rng, 1, 3, 70, 150, 200))
    if many:
        length, every = int(rng.integers(700, 1200)), int(gen.pick(rng, 1, 1, 5))
    seed = int(rng.integers(0, 2**31))
    total = n if length is None else length
    case.param(labels=n, times=M.shape[0], draws=total, refresh=every, source=src)
    kw = {} if length is None else {"sample_length": length}
    if every > 1 or rng.random() < 0.3:
        kw["update_probs_every"] = every
    spy = SpyState(seed)
    keep = mat.copy()
    got = np.asarray(seq_bootstrap(mat, random_state=spy, **kw))
    case.check((keep != mat).nnz == 0, "input-changed", "the indicator matrix changed")
    case.check(got.shape == (total,), "length", f"{got.shape} draws, expected {total}")
    case.check(np.issubdtype(got.dtype, np.integer) and (got >= 0).all() and (got < n).all(), "range", "a draw is no label position")
    again = np.asarray(seq_bootstrap(mat, random_state=np.random.RandomState(seed), **kw))
    case.check(np.array_equal(got, again), "reproducible", "the same random state gives other draws")
    case.event("draws", total)
    steps = probs_from_log(spy.log, n)
    if steps is not None and sum(len(o) for _, o in steps) == total and np.array_equal(np.concatenate([o for _, o in steps]), got):
        drawn, moved = [], False
        for p, out in steps:
            # every block of draws uses the probabilities of all draws before its block
            k = 0
            while k < len(out):
                base = (len(drawn) // every) * every
                want = ref_prob(M, drawn[:base])
                case.event("probability_vectors")
                if not case.check(gen.close(p, want, 5e-5, 1e-7), "probabilities", lambda: f"before draw {len(drawn)} (refresh every {every}): " + gen.first_diff(p, want, 5e-5, 1e-7)):
                    return
                moved = moved or np.ptp(want) > 1e-9
                take = min(len(out) - k, base + every - len(drawn))
                drawn += [int(v) for v in out[k : k + take]]
                k += take
        if moved:
            case.seen(M, got, every)
        return
    # the draws are made in another way: compare their distribution
    case.event("distribution_checks")
    case.seen(M, got, every)
    if case.idx % 10:
        return
    k = min(total, 3)
    reps = 1500
    hits = np.zeros((k, n))
    expect = np.zeros((k, n))
    for r in range(reps):
        d = np.asarray(seq_bootstrap(mat, random_state=np.random.RandomState(r), sample_length=k, **({"update_probs_every": every} if "update_probs_every" in kw else {})))
        for j in range(k):
            hits[j, d[j]] += 1
            expect[j] += ref_prob(M, list(d[: (j // every) * every]))
    dev = np.abs(hits - expect) / np.sqrt(np.maximum(expect, 1.0))
    case.check(dev.max() < 7.5, "distribution", lambda: f"draw frequencies are {dev.max():.1f} standard deviations off")
