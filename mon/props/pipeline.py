"""C22-C26, C37: strategy pipeline, trader, sklearn pipelines."""
import pickle

import numpy as np
import pandas as pd

from mon import estimators as est
from mon import gen
from mon.core import StopCase, prop
from mon.props.bets import ref_signal
from mon.props.labels import ref_daily_vol

PR, ME = "primary_model_features", "metalabeling_model_features"
AGG = {"mean": np.mean, "min": np.min, "max": np.max}


# -- workload ------------------------------------------------------------

def _frame(rng, idx, prefix, lead=True, close=False):
    n, m = len(idx), int(rng.integers(1, 4))
    cols = {}
    for c in range(m):
        kind = gen.pick(rng, "float", "float", "int", "walk", "const")
        if kind == "float":
            v = rng.normal(0, 5, n)
        elif kind == "int":
            v = rng.integers(-20, 20, n)
        elif kind == "walk":
            v = np.cumsum(rng.normal(0, 1, n))
        else:
            v = np.full(n, float(rng.normal()))
        if lead and kind != "int" and rng.random() < 0.25:
            v = v.copy()
            v[: int(rng.integers(0, max(2, n // 4)))] = np.nan
        cols[f"{prefix}{c}"] = v
    if close:
        cols["close"] = gen.prices(rng, n)
    return pd.DataFrame(cols, index=idx)


def _other_index(rng, ti):
    t = ti.asi8 // gen.MS
    lo, hi, n = int(t[0]), int(t[-1]), len(t)
    span = max(hi - lo, 4)
    kind = gen.pick(rng, "same", "dense", "sparse", "on-off", "late", "early", "clusters", "before", "shift", "stale")
    if kind == "same":
        x = t
    elif kind == "dense":
        x = rng.integers(lo - span // 3, hi + span // 3 + 1, 4 * n)
    elif kind == "sparse":
        x = rng.integers(lo - span // 3, hi + span // 3 + 1, max(2, n // 4))
    elif kind == "on-off":
        x = np.concatenate([rng.choice(t, max(1, n // 2)) + rng.integers(-1, 2, max(1, n // 2)), rng.choice(t, max(1, n // 3))])
    elif kind == "late":
        x = rng.integers(lo + span // 3, hi + span // 2 + 1, 2 * n)
    elif kind == "early":
        x = rng.integers(lo - span // 4, lo + 2 * span // 3 + 1, 2 * n)
    elif kind == "clusters":
        x = (rng.choice(t, 3)[:, None] + rng.integers(0, 12, (3, n))).ravel()
    elif kind == "stale":  # nothing new for most of the target bars
        x = rng.choice(t[: max(1, n // 5)], 3)
    elif kind == "before":  # many rows before the first target bar
        x = np.concatenate([rng.integers(lo - 2 * span, lo, 2 * n), rng.integers(lo, hi + 1, n)])
    else:
        x = t + int(rng.integers(-2, 3))
    x = np.unique(x)
    if x[-1] < lo:
        x = np.append(x, lo)
    return pd.DatetimeIndex(x * gen.MS), kind


def _transformer(rng):
    from mizarlabs.model.pipeline import MizarFeatureUnion
    from mizarlabs.transformers.utils import IdentityTransformer
    from sklearn.preprocessing import FunctionTransformer

    k = gen.pick(rng, "none", "none", "identity", "lag", "union")
    if k == "none":
        return None, k
    if k == "identity":
        return IdentityTransformer(), k
    if k == "lag":
        return est.Lagged(int(rng.integers(1, 4))), k
    u = MizarFeatureUnion([("a", FunctionTransformer(_double)), ("b", FunctionTransformer(_first))])
    return u, k


def _double(X):
    return np.asarray(X, dtype=float) * 2.0 + 1.0


def _first(X):
    return np.asarray(X, dtype=float)[:, :1] ** 2


class World:
    """One drawn strategy: data, transformers and what the features should be."""

    def __init__(self, case, meta=None, max_n=45, days=False):
        rng = case.rng
        n = int(rng.integers(3, gen.pick(rng, 8, 20, max_n)))
        if rng.random() < 0.03:
            n = int(rng.integers(100, 180))
        elif days:
            n = max(n, int(rng.integers(8, max_n)))
        n = gen.long_n(case, every=10**9, huge=(1050, 1300)) or n
        flood = case.idx in (8, 108, 208) or rng.random() < 0.002  # thousands of rows per target bar
        n = int(rng.integers(4, 8)) if flood else n
        self.ti = gen.day_index(rng, n) if days else gen.time_index(rng, n)
        if flood:
            self.ti = pd.DatetimeIndex(self.ti.asi8[0] + np.cumsum(rng.integers(1, 4, n)) * 86400 * 1000 * gen.MS)
        self.key = gen.pick(rng, "bars", "primary_0")
        self.frames = {self.key: _frame(rng, self.ti, "b", close=True)}
        kinds = []
        for name in ["ticks", "other", "funding"][: int(rng.integers(1 if flood else 0, 4))]:
            idx, k = _other_index(rng, self.ti)
            if flood and name == "ticks":
                lo, hi = int(idx.asi8[0]) // gen.MS, int(self.ti.asi8[-1]) // gen.MS
                idx, k = pd.DatetimeIndex(np.unique(rng.integers(lo, hi + 1, int(rng.integers(20000, 90000)))) * gen.MS), "flood"
            kinds.append(k)
            self.frames[name] = _frame(rng, idx, gen.pick(rng, name, "b"))
        names = list(self.frames)
        self.meta = (rng.random() < 0.5) if meta is None else meta
        others = [x for x in names if x != self.key]
        prim = [self.key] + ([x for x in others if rng.random() < 0.7] if self.meta else others)
        rng.shuffle(prim)
        self.tp, self.tm, tk = {}, {}, []
        for x in prim:
            self.tp[x], k = _transformer(rng)
            tk.append(k)
        if self.meta:
            m = [x for x in others if x not in prim] + [x for x in prim if rng.random() < 0.5]
            m = m or [gen.pick(rng, *names)]
            rng.shuffle(m)
            for x in m:
                self.tm[x], k = _transformer(rng)
                tk.append(k)
        self.frames = {x: self.frames[x] for x in rng.permutation(names).tolist() if x in self.tp or x in self.tm}
        self.how = {x: gen.pick(rng, "mean", "min", "max") for x in names if x != self.key}
        self.use_pred = bool(rng.random() < 0.5)
        self.use_proba = bool(rng.random() < 0.5)
        case.param(n=n, frames={k: v.shape for k, v in self.frames.items()}, times=kinds, transformers=tk, how=self.how,
                   meta=self.meta, use_pred=self.use_pred, use_proba=self.use_proba, primary=list(self.tp), metalabeling=list(self.tm))

    def build(self, **kw):
        from mizarlabs.model.pipeline import StrategySignalPipeline

        return StrategySignalPipeline(
            feature_transformers_primary_model=dict(self.tp), align_on=self.key, align_how=dict(self.how),
            feature_transformers_metalabeling_model=dict(self.tm) if self.meta else None,
            metalabeling_use_proba_primary_model=self.use_proba,
            metalabeling_use_predictions_primary_model=self.use_pred, **kw)

    def reference(self, which):
        parts = []
        for name, tr in (self.tp if which == PR else self.tm).items():
            f = self.frames[name].copy()
            f = tr.transform(f) if tr is not None else f
            v = np.asarray(f.values, dtype=float)
            parts.append(v if name == self.key else align(f.index.asi8, v, self.ti.asi8, self.how[name]))
        return np.concatenate(parts, axis=1)

    def models(self, case, scale=1.0):
        rng = case.rng
        cls = gen.pick(rng, [-1.0, 0.0, 1.0], [-1, 1], [0.0, 1.0], [-1.0, 1.0], [1, -1, 0], [0, 1])
        kind = est.TableModelN if rng.random() < 0.5 else est.TableModel
        p = kind(cls, float(rng.random()), bool(rng.random() < 0.6), scale)
        m = None
        if self.meta:
            m = est.TableModel(gen.pick(rng, [0.0, 1.0], [1.0, 0.0], [0, 1]), float(rng.random()), bool(rng.random() < 0.5), scale)
        case.param(primary_classes=cls, scale=scale, own_predict=p.own_predict, meta_classes=None if m is None else m.classes_.tolist())
        return p, m


def align(ft, fv, tt, how):
    out = np.full((len(tt), fv.shape[1]), np.nan)
    prev = None
    if len(tt) > 1000 or len(ft) > 5000:
        ends = np.searchsorted(ft, tt, side="right")
        for i, (a, b) in enumerate(zip(np.concatenate(([0], ends[:-1])), ends)):
            out[i] = (AGG[how](fv[a:b], axis=0) if b - a > 1 else fv[a]) if b > a else out[i - 1] if i else np.nan
        return out
    for i, t in enumerate(tt):
        rows = [j for j in range(len(ft)) if ft[j] <= t and (prev is None or ft[j] > prev)]
        prev = t
        if rows:
            out[i] = AGG[how](fv[rows], axis=0) if len(rows) > 1 else fv[rows[0]]
        elif i:
            out[i] = out[i - 1]
    return out


def meta_features(w, prim, Rp, Rm):
    """(row positions, features) for the metalabeling model given the primary features Rp."""
    okp = ~np.isnan(Rp).any(axis=1)
    okm = ~np.isnan(Rm).any(axis=1)
    rows = np.flatnonzero(okm & okp) if (w.use_pred or w.use_proba) else np.flatnonzero(okm)
    parts = [Rm[rows]]
    if w.use_pred:
        parts.append(np.asarray(prim.answer(Rp[rows]), dtype=float)[:, None])
    if w.use_proba:
        parts.append(prim.proba(Rp[rows]))
    return rows, np.concatenate(parts, axis=1)


def positions(index, ti):
    return ti.get_indexer(index)


def as_float(df):
    return np.asarray(df.values, dtype=float)


# -- properties ----------------------------------------------------------

@prop(
    "C22", quick=420, thorough=14000, workers=6,
    rule="a case is one strategy with 1 to 4 data sets (same, denser, sparser, clustered, shifted, late, early times) and its transformers; "
    "the aligned features are read from the data sets created and from what recording models are given and compared with an O(n*m) "
    "recomputation; data after a cut are then altered, removed or appended and the rows up to the cut compared; non-trivial: at least one "
    "aligned row aggregates several feature rows, or one is filled forward (distinct by content)",
    assumptions=["strictly increasing times", "missing values only at the start of a data set's columns (warm-up)", "an aggregation is configured for every other data set"],
)
def c22(case):
    rng = case.rng
    w = World(case)
    prim, met = w.models(case)
    sp = w.build().set_primary_model(prim)
    if met is not None:
        sp.set_metalabeling_model(met)
    before = gen.snapshot(w.frames)
    Rp = w.reference(PR)
    y = pd.Series(rng.choice([-1, 0, 1], len(w.ti)), index=w.ti)
    X, _ = sp.create_dataset_primary(w.frames, y, drop_na=False)
    if not case.check(X.index.equals(w.ti) and X.shape == Rp.shape, "shape", lambda: f"{X.shape}, expected {Rp.shape}"):
        return
    got = as_float(X)
    case.check(gen.close(got, Rp, 1e-9, 1e-9), "aligned-features", lambda: gen.first_diff(got, Rp, 1e-9, 1e-9))
    j = 0
    for name, tr in w.tp.items():
        f = w.frames[name] if tr is None else tr.transform(w.frames[name])
        m = f.shape[1]
        if name == w.key:
            case.check(np.array_equal(got[:, j: j + m], np.asarray(f.values, dtype=float), equal_nan=True), "target-features-changed", "the target's own features differ")
        j += m
    okp = ~np.isnan(Rp).any(axis=1)
    multi = filled = 0
    for name in w.frames:
        if name != w.key:
            k = np.searchsorted(w.frames[name].index.asi8, w.ti.asi8, side="right")
            d = np.diff(np.concatenate(([0], k)))
            multi += int((d > 1).sum())
            filled += int((d[1:] == 0).sum())
            case.event("feature_rows_aligned", int(k[-1]))
    if multi or filled:
        case.seen(got)
    case.event("aggregated_rows", multi)
    case.event("forward_filled_rows", filled)
    # what the models are given
    if okp.any():
        sp.predict(w.frames)
        sp.predict_proba(w.frames)
        for method, Xm in prim.calls:
            pos = positions(Xm.index, w.ti)
            case.check(len(set(pos)) == len(pos) and (pos >= 0).all() and np.all(np.diff(pos) > 0), "model-rows", f"{method}: rows are not target bars in order")
            case.check(gen.close(as_float(Xm), Rp[pos], 1e-9, 1e-9), "model-features", lambda: method + ": " + gen.first_diff(as_float(Xm), Rp[pos], 1e-9, 1e-9))
        case.check({m for m, _ in prim.calls} == {"predict", "predict_proba"}, "model-not-used", str([m for m, _ in prim.calls]))
        if met is not None:
            rows, F = meta_features(w, prim, Rp, w.reference(ME))
            for method, Xm in met.calls:
                pos = positions(Xm.index, w.ti)
                case.check(np.array_equal(pos, rows) and gen.close(as_float(Xm), F, 1e-8, 1e-8), "metalabeling-features",
                           lambda: f"{method}: rows {len(pos)} of {len(rows)}; " + (gen.first_diff(as_float(Xm), F, 1e-8, 1e-8)))
                case.event("metalabeling_calls")
    case.check(gen.same(before, w.frames), "input-changed", "the data passed in were modified")
    # no look-ahead
    cut = int(rng.integers(len(w.ti)))
    T = w.ti[cut]
    for how in (gen.pick(rng, "alter", "remove", "append"), "drop-bars"):
        new = {}
        for name, f in w.frames.items():
            g = f.copy()
            later = g.index > T
            if name == w.key and how != "drop-bars":
                if how == "alter" and later.any():
                    g.loc[later] = rng.normal(0, 100, (int(later.sum()), g.shape[1])).astype(float)
            elif how == "alter":
                if later.any():
                    g = g.astype(float)
                    g.loc[later] = rng.normal(0, 100, (int(later.sum()), g.shape[1]))
            elif how == "append":
                last = g.index[-1] if g.index[-1] > T else T
                extra = pd.DataFrame(rng.normal(0, 9, (3, g.shape[1])), columns=g.columns, index=[last + pd.Timedelta(i + 1, "ms") for i in range(3)])
                g = pd.concat([g, extra])
            else:
                keep = g.index <= T
                g = g[keep] if keep.any() else g.iloc[:1]
            new[name] = g
        Y, _ = sp.create_dataset_primary(new, y.loc[new[w.key].index.intersection(y.index)], drop_na=False)
        a = as_float(Y)[: cut + 1]
        case.check(Y.shape[0] >= cut + 1 and gen.close(a, Rp[: cut + 1], 1e-9, 1e-9), "look-ahead", lambda: f"{how} data after bar {cut}: " + gen.first_diff(a, Rp[: cut + 1], 1e-9, 1e-9))
        case.event("cuts")


class RecordingSizer:
    def __init__(self, shift=0.0):
        self.frames = []
        self.shift = shift

    def transform(self, X):
        self.frames.append(X.copy())
        s = X["prob"] * 0.5 + X["pred"].astype(float) * 0.1 + self.shift
        if "side" in X:
            s = s + 0.07 * X["side"].astype(float)
        return s


class Real:
    """Gives a fitted scikit-learn model the oracle interface of TableModel."""

    def __init__(self, m):
        self.m = m
        self.classes_ = m.classes_

    def answer(self, X):
        return self.m.predict(X) if len(X) else np.empty(0)

    def proba(self, X):
        return self.m.predict_proba(X) if len(X) else np.empty((0, len(self.classes_)))


def _fit_real(rng, X, y):
    from mizarlabs.model.pipeline import MizarPipeline
    from sklearn.linear_model import LogisticRegression
    from sklearn.preprocessing import StandardScaler

    m = LogisticRegression(C=float(rng.choice([0.1, 1.0])), max_iter=60)
    if rng.random() < 0.7:
        m = MizarPipeline([("scale", StandardScaler()), ("lr", m)])
    return m.fit(X.values.astype(float), y, sample_weight=rng.uniform(0.5, 2, len(y)))


def ref_size(w, prim, met, sizer, Rp, Rm, okp):
    """(row positions, side, size) the signal has to consist of."""
    side = np.asarray(prim.answer(Rp[okp]), dtype=float)
    prow = np.flatnonzero(okp)
    if met is None:
        rows, F, P, cl, s_rows = prow, Rp[okp], prim.proba(Rp[okp]), np.asarray(prim.classes_, dtype=float), None
    else:
        rows, F = meta_features(w, prim, Rp, Rm)
        P, cl = met.proba(F), np.asarray(met.classes_, dtype=float)
    smap = dict(zip(prow, side))
    if sizer is None:
        size = P.max(axis=1) if met is None else P[:, int(np.flatnonzero(cl == 1.0)[0])]
    else:
        prob, pred = P.max(axis=1), cl[P.argmax(axis=1)]
        s = None if met is None else np.array([smap[r] for r in rows])
        size = sizer(prob, pred, s)
    keep = [i for i, r in enumerate(rows) if r in smap]
    rows = np.asarray(rows)[keep]
    return rows, np.array([smap[r] for r in rows]), np.asarray(size)[keep]


@prop(
    "C23", quick=420, thorough=14000, workers=6,
    rule="a case is one strategy (with or without meta-labeling, all combinations of its options, with or without a bet sizer) whose models "
    "answer as a known function of the row they are given; side and size of every row are recomputed from independently aligned features; "
    "non-trivial: at least two different sides or sizes (distinct by the signal)",
    assumptions=["missing values only at the start of columns", "the meta-labeling model's classes are 0 and 1"],
)
def c23(case):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

    rng = case.rng
    w = World(case)
    prim, met = w.models(case)
    Rp = w.reference(PR)
    Rm = w.reference(ME) if w.meta else None
    okp = ~np.isnan(Rp).any(axis=1)
    if not okp.any():
        raise StopCase("no complete row")
    with_sizer = rng.random() < 0.5
    sizer = ref = None
    if with_sizer and w.meta and not (w.use_pred or w.use_proba):
        okm = ~np.isnan(Rm).any(axis=1)
        if (okm & ~okp).any():
            with_sizer = False  # bars without a side cannot be sized in meta-labeling
    if with_sizer and rng.random() < 0.5:
        sizer = RecordingSizer()
        ref = lambda p, c, s: p * 0.5 + c * 0.1 + (0 if s is None else 0.07 * s)
    elif with_sizer:
        k = 2 if w.meta else len(prim.classes_)
        sizer = BetSizingFromProbabilities(num_classes=k, meta_labeling=bool(w.meta))
        ref = lambda p, c, s: np.abs([b * ref_signal(float(a), k) * (1 if s is None else s[i]) for i, (a, b) in enumerate(zip(p, c))])
    case.param(sizer=type(sizer).__name__)
    real = rng.random() < 0.25 and okp.sum() >= 6
    sp = w.build(bet_sizer=sizer)
    P, M = prim, met
    if real:
        y = rng.choice([-1.0, 1.0], int(okp.sum()))
        y[:2] = [-1.0, 1.0]
        model = _fit_real(rng, pd.DataFrame(Rp[okp]), y)
        if (not with_sizer or w.meta or len(model.classes_) == len(prim.classes_)):
            P, prim = Real(model), model
            case.event("fitted_models")
    sp.set_primary_model(prim)
    if w.meta:
        sp.set_metalabeling_model(met)
        if not len(meta_features(w, P, Rp, Rm)[0]):
            raise StopCase("no complete meta-labeling row")
    before = gen.snapshot(w.frames)
    out = sp.get_side_and_size(w.frames)
    rows, side, size = ref_size(w, P, M, ref, Rp, Rm, okp)
    case.check(gen.same(before, w.frames), "input-changed", "the data passed in were modified")
    pos = positions(out.index, w.ti)
    if not case.check(sorted(out.columns) == ["side", "size"] and np.array_equal(pos, rows), "rows", lambda: f"columns {list(out.columns)}; {len(pos)} rows, expected {len(rows)}"):
        return
    got_side, got_size = out["side"].values.astype(float), out["size"].values.astype(float)
    case.check(np.array_equal(got_side, side), "side", lambda: gen.first_diff(got_side, side))
    case.check(gen.close(got_size, size, 1e-7, 1e-9), "size", lambda: gen.first_diff(got_size, size, 1e-7, 1e-9))
    case.event("signal_rows", len(rows))
    if isinstance(sizer, RecordingSizer):
        for f in sizer.frames:
            case.check("side" in f if w.meta else True, "sizer-side", "the sizer is not given the primary side")
    if len(np.unique(side)) > 1 or len(np.unique(size)) > 1:
        case.seen(got_side, got_size)
    # both prediction interfaces
    pr, pp = sp.predict(w.frames), sp.predict_proba(w.frames)
    a = pr["primary_model_predictions"]
    case.check(np.array_equal(positions(a.index, w.ti), np.flatnonzero(okp)) and np.array_equal(a.values.astype(float), np.asarray(P.answer(Rp[okp]), dtype=float)), "predictions", "primary predictions differ")
    b = pp["primary_model_proba"]
    case.check(list(b.columns) == list(P.classes_) and gen.close(b.values, P.proba(Rp[okp]), 1e-7, 1e-9), "probabilities", "primary probabilities differ")
    m1, m2 = pr["metalabeling_model_predictions"], pp["metalabeling_model_proba"]
    if not w.meta:
        case.check(m1 is None and m2 is None, "metalabeling-without-model", "meta-labeling answers without a model")
    else:
        r, F = meta_features(w, P, Rp, Rm)
        case.check(np.array_equal(positions(m1.index, w.ti), r) and np.array_equal(m1.values.astype(float), np.asarray(M.answer(F), dtype=float)), "metalabeling-predictions", "meta-labeling predictions differ")
        case.check(list(m2.columns) == list(M.classes_) and gen.close(m2.values, M.proba(F), 1e-7, 1e-9), "metalabeling-probabilities", "meta-labeling probabilities differ")
    if rng.random() < 0.15:
        bad = dict(w.frames)
        if rng.random() < 0.5:
            bad["unknown"] = w.frames[w.key]
        else:
            bad.pop(gen.pick(rng, *bad))
        case.refuses("wrong-keys", lambda: sp.get_side_and_size(bad))
    if rng.random() < 0.1 and len(w.frames) > 1:
        name = gen.pick(rng, *[x for x in w.frames if x != w.key])
        bad = dict(w.frames)
        f = bad[name].copy()
        f.index = f.index - (f.index[-1] - w.ti[0]) - pd.Timedelta(1, "ms")
        bad[name] = f
        case.refuses("no-overlap", lambda: sp.get_side_and_size(bad))


@prop(
    "C24", quick=480, thorough=16000, workers=6,
    rule="a case is one strategy and one label series (subset of the bars, missing labels, any order); both data sets are recomputed row by "
    "row from independently aligned features; non-trivial: at least two rows in the data set and a bar that is left out or several data sets "
    "(distinct by content)",
    assumptions=["missing values only at the start of columns", "labels are given for target bars", "at least one labeled bar with complete features"],
)
def c24(case):
    rng = case.rng
    w = World(case, meta=bool(rng.random() < 0.65))
    prim, met = w.models(case)
    Rp = w.reference(PR)
    okp = ~np.isnan(Rp).any(axis=1)
    n = len(w.ti)
    kind = gen.pick(rng, "all", "subset", "missing", "shuffled", "both")
    lab = rng.choice([-1, 0, 1], n).astype(float)
    rows = np.arange(n)
    if kind in ("subset", "both"):
        rows = np.flatnonzero(rng.random(n) < 0.6)
    if kind in ("missing", "both"):
        lab[rng.random(n) < 0.3] = np.nan
    if kind == "shuffled":
        rng.shuffle(rows)
    y = pd.Series(lab[rows], index=w.ti[rows], name=gen.pick(rng, "label", None))
    if not np.isnan(lab[rows]).any() and rng.random() < 0.5:
        y = y.astype(int)
    expect = {r for r in rows if okp[r] and not np.isnan(lab[r])}
    if not expect:
        raise StopCase("no complete labeled row")
    case.param(labels=kind, labeled=len(rows), complete=len(expect))
    sp = w.build().set_primary_model(prim)
    before = gen.snapshot(w.frames), gen.snapshot(y)

    def compare(what, X, t, rows, feats, labels):
        pos = positions(X.index, w.ti)
        ok = case.check(len(X) == len(t) and X.index.equals(t.index) and sorted(pos) == sorted(rows), what + "-rows", lambda: f"{len(pos)} rows, {len(t)} labels, expected {len(rows)}")
        if not ok:
            return
        order = [rows.index(p) for p in pos]
        a, b = as_float(X), feats[order]
        case.check(gen.close(a, b, 1e-9, 1e-9), what + "-features", lambda: gen.first_diff(a, b, 1e-9, 1e-9))
        a2, b2 = np.asarray(t.values, dtype=float), labels[order]
        case.check(np.array_equal(a2, b2), what + "-labels", lambda: gen.first_diff(a2, b2))
        case.event(what + "_rows", len(pos))
        if len(pos) > 1 and (len(pos) < n or len(w.frames) > 1):
            case.seen(what, a, a2)

    X, t = sp.create_dataset_primary(w.frames, y)
    pr = sorted(expect)
    compare("primary", X, t, pr, Rp[pr], lab[pr])
    full, ty = sp.create_dataset_primary(w.frames, y, drop_na=False)
    case.check(full.index.equals(w.ti) and gen.close(as_float(full), Rp, 1e-9, 1e-9) and gen.same(ty, y), "complete-data", "without dropping, features or labels differ")
    if w.meta:
        if rng.random() < 0.2 and len({lab[r] for r in pr}) > 1:
            model = _fit_real(rng, X, t.values.astype(float))
            sp.set_primary_model(model)
            prim = Real(model)
            case.event("fitted_models")
        Rm = w.reference(ME)
        if isinstance(prim, Real) and not (~np.isnan(Rm).any(axis=1) & okp).any():
            raise StopCase("no complete meta-labeling row")
        mrows, F = meta_features(w, prim, Rp, Rm)
        keep = [i for i, r in enumerate(mrows) if r in expect]
        mr = [int(mrows[i]) for i in keep]
        Xm, tm = sp.create_dataset_metalabeling(w.frames, y)
        want = (np.asarray(prim.answer(Rp[mr]), dtype=float) == lab[mr]).astype(float) if mr else np.zeros(0)
        compare("metalabeling", Xm, tm, mr, F[keep], want)
        case.check(set(np.unique(tm.values.astype(float))) <= {0.0, 1.0}, "metalabel-values", "meta-labels other than 0 and 1")
        names = [str(c) for c in Xm.columns]
        k = len(prim.classes_)
        tail = (["primary_side_pred"] if w.use_pred else []) + ([f"primary_side_pred_proba_{i}" for i in range(k)] if w.use_proba else [])
        case.check(names[len(names) - len(tail):] == tail if tail else True, "metalabeling-columns", str(names))
    case.check(gen.same(before[0], w.frames) and gen.same(before[1], y), "input-changed", "data or labels were modified")
    if rng.random() < 0.4:
        bad = y.astype(float).copy()
        ok = np.flatnonzero(~bad.isna().values)
        bad.iloc[int(rng.choice(ok))] = float(rng.choice([2.0, 0.5, -2.0, 3.0, np.inf]))
        case.refuses("bad-label", lambda: sp.create_dataset_primary(w.frames, bad))
        case.refuses("bad-label", lambda: sp.create_dataset_primary(w.frames, bad, drop_na=False))
        if w.meta:
            case.refuses("bad-label", lambda: sp.create_dataset_metalabeling(w.frames, bad))


@prop(
    "C25", quick=360, thorough=12000, workers=6,
    rule="a case is one trader over one strategy; every position is recomputed (daily volatility by its O(n^2) definition, side and size from "
    "independently aligned features); calls are repeated and interleaved with invalid signals; non-trivial: a position with a side and a "
    "stop (distinct by content)",
    assumptions=["factors are numbers", "target bars have close prices"],
)
def c25(case):
    from mizarlabs.model.pipeline import StrategyTrader

    rng = case.rng
    w = World(case, days=True, max_n=60)
    scale = float(gen.pick(rng, 1.0, 1.0, 1.0, 1.0, 3.5, -1.0))
    prim, met = w.models(case, scale)
    if rng.random() < 0.15:
        prim.classes_ = np.array(gen.pick(rng, [-2.0, 0.0, 1.0], [0.0, 1.0, 2.0], [-1.0, 1.5, 0.0])[: len(prim.classes_)])
    Rp = w.reference(PR)
    Rm = w.reference(ME) if w.meta else None
    okp = ~np.isnan(Rp).any(axis=1)
    if not okp.any() or (w.meta and not len(meta_features(w, prim, Rp, Rm)[0])):
        raise StopCase("no complete row")
    sizer = ref = None
    if not w.meta and rng.random() < 0.3:
        shift = float(gen.pick(rng, 0.0, 0.0, 0.7, -0.5))
        sizer = RecordingSizer(shift)
        ref = lambda p, c, s: p * 0.5 + c * 0.1 + shift
    sp = w.build(bet_sizer=sizer).set_primary_model(prim)
    if w.meta:
        sp.set_metalabeling_model(met)
    adj = bool(rng.random() < 0.7)
    sl, pt = float(rng.choice([0.0, 0.5, 1.0, 2.25])), float(rng.choice([0.1, 0.75, 1.0, 3.0]))
    span, nexp = int(gen.pick(rng, 2, 10, 100) if rng.random() < 0.95 else 1), int(rng.integers(1, 40))
    case.param(adjusted=adj, stop_loss=sl, profit_taking=pt, window=span, bars=nexp, sizer=type(sizer).__name__)
    kw = dict(volatility_window=span)
    if not adj or rng.random() < 0.5:
        kw["volatility_adjusted_stop_loss"] = adj
    tr = StrategyTrader(strategy_pipeline=sp, min_num_bars=int(rng.integers(1, 50)), num_expiration_bars=nexp, stop_loss_factor=sl, profit_taking_factor=pt, **kw)
    if rng.random() < 0.2:
        tr = pickle.loads(pickle.dumps(tr)) if sizer is None else tr
        case.event("restored_from_pickle")
    before = gen.snapshot(w.frames)
    pos = tr.create_position(w.frames)
    case.check(gen.same(before, w.frames), "input-changed", "the data passed in were modified")
    n = len(w.ti)
    if not case.check(pos.index.equals(w.ti), "rows", lambda: f"{len(pos)} positions for {n} bars"):
        return
    vol = ref_daily_vol(w.ti.asi8, w.frames[w.key]["close"].values.astype(float), span) if adj else np.ones(n)
    for col, f in (("stop_loss", sl), ("profit_taking", pt)):
        got = pos[col].values.astype(float)
        case.check(gen.close(got, f * vol, 1e-6, 1e-9), col, lambda: gen.first_diff(got, f * vol, 1e-6, 1e-9))
    case.check((pos["num_expiration_bars"].values == nexp).all(), "expiration-bars", "number of expiration bars differs")
    rows, side, size = ref_size(w, prim, met, ref, Rp, Rm, okp)
    s, z = np.full(n, np.nan), np.full(n, np.nan)
    s[rows], z[rows] = side, size
    case.check(np.array_equal(pos["side"].values.astype(float), s, equal_nan=True), "side", lambda: gen.first_diff(pos["side"], s))
    case.check(gen.close(pos["size"], z, 1e-8, 1e-9), "size", lambda: gen.first_diff(pos["size"], z, 1e-8, 1e-9))

    def expected_valid(side, size):
        edge = np.abs(np.concatenate([size, size - 1])).min() if len(size) else 1
        if edge < 1e-9:
            return None
        return bool(((size >= 0) & (size <= 1)).all() and ((side >= -1) & (side <= 1)).all())

    v = expected_valid(side, size)
    if v is not None:
        case.check(bool(tr.strategy_valid) == v and tr.strategy_valid is not None, "validity", f"strategy_valid {tr.strategy_valid}, expected {v}")
        case.event("valid_signals" if v else "invalid_signals")
    if (np.isfinite(vol) & np.isfinite(s)).any():
        case.seen(pos.values.astype(float))
    # the same again, and with other data in between
    if rng.random() < 0.6:
        other = {k: f.iloc[: max(2, len(f) * 2 // 3)] for k, f in w.frames.items()}
        try:
            tr.create_position(other)
        except Exception:
            pass
        if rng.random() < 0.4:
            # the next signal decides anew
            prim.scale, keep = -5.0, prim.scale
            if met is not None:
                met.scale = -5.0
            try:
                target = tr.strategy_pipeline.primary_model
                target.scale = -5.0
                if met is not None:
                    tr.strategy_pipeline.metalabeling_model.scale = -5.0
                sig = tr.create_signal(w.frames)
                v2 = expected_valid(sig["side"].values.astype(float), sig["size"].values.astype(float))
                if v2 is not None:
                    case.check(bool(tr.strategy_valid) == v2, "validity", f"after another signal {tr.strategy_valid}, expected {v2}")
                    case.event("revalidations")
            finally:
                prim.scale = target.scale = keep
                if met is not None:
                    met.scale = tr.strategy_pipeline.metalabeling_model.scale = scale
    again = tr.create_position(w.frames)
    case.check(gen.same(pos, again), "repeat", "a repeated call gives other positions")
    if v is not None:
        case.check(bool(tr.strategy_valid) == v, "validity", "validity of the repeated signal differs")
    if rng.random() < 0.5:
        name = gen.pick(rng, *w.frames)
        dup = dict(w.frames)
        f = dup[name]
        r = int(rng.integers(len(f)))
        dup[name] = f.iloc[sorted(list(range(len(f))) + [r])]
        for fn in (tr.create_position, tr.create_signal, tr.create_strategy_bars):
            case.refuses("duplicated-timestamps", lambda: fn(dup))
    # a strategy may compute its signal in its own way: a history of such signals, good and bad
    class Own(type(sp)):
        def get_side_and_size(self, X_dict):
            return self.signal.copy()

    own = Own({k: None for k in w.frames}, w.key, {k: "mean" for k in w.frames if k != w.key})
    tr = StrategyTrader(strategy_pipeline=own, min_num_bars=1, num_expiration_bars=nexp, stop_loss_factor=sl, profit_taking_factor=pt)
    index = w.frames[w.key].index
    for _ in range(int(rng.integers(3, 9))):
        n = len(index)
        z = rng.choice([0.0, 1.0, 0.5, 1e-12, 1 - 1e-12], n) if rng.random() < 0.5 else rng.random(n)
        d = rng.choice([-1.0, 0.0, 1.0], n)
        if rng.random() < 0.55:
            for col, vals in ((z, [np.nan, -1e-9, 1 + 1e-9, 2.0, -0.5, np.inf]), (d, [np.nan, -1 - 1e-9, 1 + 1e-9, 2.0, -2.0])):
                if rng.random() < 0.6:
                    col[rng.integers(0, n, int(rng.integers(1, 3)))] = rng.choice(vals)
        own.signal = pd.DataFrame({"side": d, "size": z}, index=index)
        sig = tr.create_signal(w.frames)
        good = bool(((z >= 0) & (z <= 1) & (d >= -1) & (d <= 1)).all())
        case.check(
            tr.strategy_valid is not None and bool(tr.strategy_valid) == good, "validity-own",
            lambda: f"strategy_valid {tr.strategy_valid} for sizes {np.unique(z)[:4]}..{np.unique(z)[-2:]}, sides {np.unique(d)}",
        )
        case.check(gen.close(sig["side"], d) and gen.close(sig["size"], z), "signal-changed", "the signal is not that of the strategy")
        case.event("own_signals_valid" if good else "own_signals_invalid")


class Closer:
    pass


def _closer(answer, log):
    from mizarlabs.model.pipeline import ClosingPositionsModel

    class M(ClosingPositionsModel):
        def close_positions(self, X_dict):
            log.append(X_dict)
            return answer

    return M()


@prop(
    "C26", quick=900, thorough=20000, workers=4,
    rule="a case is one closing-positions model asked through the pipeline and through the trader; its calls are recorded; non-trivial: a model "
    "is configured (distinct by answer and data)",
)
def c26(case):
    from mizarlabs.model.pipeline import StrategyTrader

    rng = case.rng
    w = World(case, max_n=12)
    good = rng.random() < 0.55
    configured = rng.random() < 0.85
    ans = gen.pick(rng, "all", "long", "short", None) if good else gen.pick(
        rng, "ALL", "", "lon", "shorts", "longshort", 0, 1, -1, True, False, "none", "None", "al", "a", ["all"], ("all",), {"all"}, 1.5, np.nan, ("long", "short"), b"all")
    log = []
    sp = w.build(closing_positions_model=_closer(ans, log)) if configured else w.build()
    if rng.random() < 0.2:
        prim, met = w.models(case)
        sp.set_primary_model(prim)
    tr = StrategyTrader(strategy_pipeline=sp, min_num_bars=2, num_expiration_bars=3, stop_loss_factor=1.0, profit_taking_factor=1.0)
    case.param(configured=configured, answer=repr(ans))
    before = gen.snapshot(w.frames)
    for target in (sp, tr):
        reps = int(rng.integers(1, 3))
        for _ in range(reps):
            log.clear()
            if configured and not good:
                case.refuses("bad-answer", lambda: target.determine_positions_to_close(w.frames))
            else:
                out = target.determine_positions_to_close(w.frames)
                case.check(out == (ans if configured else None), "answer", f"got {out!r}")
            if configured:
                case.check(len(log) == 1, "calls", f"the model was called {len(log)} times")
                case.check(all(gen.same(x, before) for x in log), "data", "the model was given other data")
                case.event("model_calls", len(log))
    if configured:
        case.seen(repr(ans), list(w.frames), w.frames[w.key].values)
    # a model set later, and one whose answer changes
    log2, answers = [], ["long", None, "bogus", "short", "all"]

    from mizarlabs.model.pipeline import ClosingPositionsModel

    class Moving(ClosingPositionsModel):
        def close_positions(self, X_dict):
            log2.append(X_dict)
            return answers[len(log2) - 1]

    sp.closing_positions_model = Moving()
    for i, a in enumerate(answers):
        t = gen.pick(rng, sp, tr)
        if a == "bogus":
            case.refuses("bad-answer", lambda: t.determine_positions_to_close(w.frames))
        else:
            case.check(t.determine_positions_to_close(w.frames) == a, "answer", f"answer {i} differs")
        case.check(len(log2) == i + 1, "calls", "not called exactly once")
    case.check(gen.same(before, w.frames), "input-changed", "the data passed in were modified")


@prop(
    "C37", quick=520, thorough=24000, workers=6,
    rule="a case is one pipeline of 1 to 4 recording steps (fit parameters, nested pipelines, unions) or one feature union; fit arguments of "
    "every step are recorded, outputs compared with the composition of the steps; non-trivial: sample weights are given or the union has at "
    "least two transformers (distinct by content)",
)
def c37(case):
    from mizarlabs.model.pipeline import MizarFeatureUnion, MizarPipeline
    from mizarlabs.transformers.features import LocalMaxToCloseRatio, RollingZScoreTransformerFactory
    from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver
    from sklearn.feature_selection import SelectKBest
    from sklearn.preprocessing import FunctionTransformer, StandardScaler

    rng = case.rng
    n, m = int(rng.integers(4, 40)), int(rng.integers(1, 5))
    index = gen.pick(rng, gen.time_index(rng, n), pd.RangeIndex(n), pd.Index(rng.permutation(n) * 3), pd.Index([f"r{i}" for i in range(n)]),
                     pd.Index(rng.integers(0, 4, n)), gen.time_index(rng, n)[::-1].rename("when"))
    X = pd.DataFrame(rng.normal(0, 2, (n, m)), index=index, columns=[f"c{i}" for i in range(m)])
    y = rng.choice([0, 1, 2][: int(rng.integers(2, 4))], n)
    y[:2] = [0, 1]
    yy = pd.Series(y, index=index) if rng.random() < 0.5 else y
    # --- pipeline
    depth = int(rng.integers(0, 4))
    steps, fitp, expect = [], {}, {}
    for i in range(depth):
        k = gen.pick(rng, "step", "plain", "pass", "none")
        name = gen.pick(rng, "a", "zz", "x_y", "step") + str(i)
        if k == "step":
            s = est.Step(float(rng.normal()), int(rng.integers(1, 3)))
            steps.append((name, s))
            expect[name] = {}
            if rng.random() < 0.4:
                fitp[name + "__alpha"] = expect[name]["alpha"] = int(rng.integers(100))
        elif k == "plain":
            steps.append((name, est.NoWeightStep(float(rng.normal()))))
            expect[name] = {}
        else:
            steps.append((name, "passthrough" if k == "pass" else None))
    nested = rng.random() < 0.25
    fin = est.Final(float(rng.random()))
    last = gen.pick(rng, "final", "clf")
    inner = MizarPipeline([("in", est.Step(0.5)), ("f", fin)]) if nested else fin
    steps.append((last, inner))
    wk = gen.pick(rng, "none", "array", "series", "list", "zeros", "equal", "integer", "negative", "large", "small")
    wts = {"none": None, "array": rng.uniform(0.1, 3, n), "series": pd.Series(rng.uniform(0, 1, n), index=index), "list": list(rng.uniform(0, 1, n)), "zeros": np.zeros(n),
           "equal": np.full(n, float(rng.choice([0.25, 1.0, 3.0]))), "integer": rng.integers(0, 5, n), "negative": rng.normal(0, 1, n),
           "large": rng.uniform(0, 1, n) * 1e7, "small": rng.uniform(0, 1, n) * 1e-9}[wk]
    extra = {}
    if not nested and rng.random() < 0.4:
        extra["beta"] = int(rng.integers(1000))
        fitp[f"{last}__beta"] = extra["beta"]
    case.param(n=n, columns=m, steps=[(a, type(b).__name__) for a, b in steps], weights=wk, nested=nested, fit_parameters=sorted(fitp))
    pipe = MizarPipeline(steps)
    if rng.random() < 0.3:
        pipe.set_params(verbose=False)
    beforeX, before_y, before_w = gen.snapshot(X), gen.snapshot(yy), gen.snapshot(wts)
    rep = 2 if rng.random() < 0.3 else 1
    for _ in range(rep):
        r = pipe.fit(X, yy, **fitp) if wts is None else (pipe.fit(X, yy, sample_weight=wts, **fitp) if rng.random() < 0.7 else pipe.fit(X, yy, wts, **fitp))
        case.check(r is pipe, "fit-result", "fit does not return the pipeline")
    case.check(gen.same(beforeX, X) and gen.same(before_y, yy) and gen.same(before_w, wts), "input-changed", "inputs were modified")
    names = [a for a, b in steps]
    Z = X.values
    for name, s0 in pipe.steps[:-1]:
        if s0 in (None, "passthrough"):
            continue
        fx, fy, kw = s0.fits_[-1]
        case.check(kw == expect[name], "step-parameters", f"step {name} was given {sorted(kw)}, expected {expect[name]}")
        case.check(gen.close(fx, Z, 1e-9, 1e-9) and np.array_equal(fy, y), "step-data", f"step {name} was fitted on other data")
        Z = s0.transform(Z)
    if nested:
        fx, fy, kw = pipe.steps[-1][1].steps[0][1].fits_[-1]
        case.check(kw == {}, "step-parameters", "weights reached a transformer")
        Z = pipe.steps[-1][1].steps[0][1].transform(Z)
    final = pipe.steps[-1][1].steps[-1][1] if nested else pipe.steps[-1][1]
    fx, fy, kw = final.fits_[-1]
    case.check(gen.close(fx, Z, 1e-9, 1e-9) and np.array_equal(fy, y), "final-data", "the final step was fitted on other data")
    got_w = kw.pop("sample_weight", None)
    if wts is None:
        case.check(got_w is None, "weights-invented", "the final step was given weights")
    else:
        case.check(got_w is not None and np.array_equal(np.asarray(got_w, dtype=float), np.asarray(before_w, dtype=float)), "weights", "the final step was not given the sample weights")
        case.seen("w", np.asarray(before_w, dtype=float))
    case.check(kw == extra, "final-parameters", f"{kw} instead of {extra}")
    case.event("fits_recorded", len(steps))
    Xn = pd.DataFrame(rng.normal(0, 2, (7, m)), columns=X.columns)
    Zn = Xn.values
    for name, s0 in pipe.steps[:-1] + ([pipe.steps[-1][1].steps[0]] if nested else []):
        if s0 not in (None, "passthrough"):
            Zn = s0.transform(Zn)
    case.check(np.array_equal(pipe.predict(Xn), final.predict(Zn)) and gen.close(pipe.predict_proba(Xn), final.predict_proba(Zn)), "predictions", "predictions are not those of the final step")
    # --- union
    U = gen.bars(rng, n, gen.time_index(rng, n)) if rng.random() < 0.6 else X
    is_bars = "high" in U.columns
    trs = []
    pool = ["scale", "label", "identity2", "lag", "kbest", "drop", "passthrough"] + (["maco", "zscore", "localmax"] * 2 if is_bars else [])
    for i in range(int(rng.integers(1, 5))):
        k = str(rng.choice(pool))
        t = {
            "scale": lambda: StandardScaler(), "label": lambda: est.LabelMean(), "identity2": lambda: FunctionTransformer(_double), "lag": lambda: est.Lagged(2),
            "kbest": lambda: SelectKBest(k=1), "drop": lambda: "drop", "passthrough": lambda: "passthrough",
            "maco": lambda: MovingAverageCrossOver(2, 4, "close"), "zscore": lambda: RollingZScoreTransformerFactory.get_transformer(str(rng.choice(["buy_sell_diff", "high_to_low_ratio"])), 3),
            "localmax": lambda: LocalMaxToCloseRatio(3),
        }[k]()
        trs.append((k + str(i), t))
    jobs = 2 if rng.random() < 0.02 else None
    weights = {trs[0][0]: 2.5} if rng.random() < 0.25 else None
    supervised = any(t[0].startswith("kbest") for t in trs)
    if supervised and not np.isfinite(U.values).all():
        raise StopCase("not finite")

    def fresh():
        from sklearn.base import clone

        out = []
        for a, t in trs:
            out.append((a, t if isinstance(t, str) else (t if a.startswith(("maco",)) else clone(t))))
        return out

    given = y
    if not supervised and not any(t[0].startswith("label") for t in trs):
        given = gen.pick(rng, y, None, pd.Series(y), pd.Series(y, index=rng.permutation(U.index)), pd.Series(y, index=U.index))
    u1, u2 = (MizarFeatureUnion(fresh(), n_jobs=jobs, transformer_weights=weights) for _ in range(2))
    beforeU = gen.snapshot(U)
    a = u1.fit(U, given).transform(U)
    b = u2.fit_transform(U, given)
    parts, subparts = [], []
    sub = U.iloc[: n // 2 + 1] if rng.random() < 0.6 else U.iloc[rng.permutation(n)[: n // 2 + 1]]
    for name, t in fresh():
        if t == "drop":
            continue
        fitted = t if t == "passthrough" else t.fit(U, y)
        v = np.asarray(U.values if t == "passthrough" else fitted.transform(U), dtype=float)
        parts.append(v * (weights or {}).get(name, 1.0))
        v = np.asarray(sub.values if t == "passthrough" else fitted.transform(sub), dtype=float)
        subparts.append(v * (weights or {}).get(name, 1.0))
    want = np.concatenate(parts, axis=1) if parts else np.zeros((n, 0))
    case.param(union=[x for x, _ in trs])
    for what, o in (("transform", a), ("fit_transform", b)):
        if not case.check(isinstance(o, pd.DataFrame) and o.index.equals(U.index) and o.shape == want.shape, "union-shape", lambda: f"{what}: {getattr(o, 'shape', None)}, expected {want.shape}"):
            continue
        case.check(gen.close(o.values, want, 1e-9, 1e-12), "union-values", lambda: what + ": " + gen.first_diff(o.values, want, 1e-9, 1e-12))
    case.check(gen.same(beforeU, U), "input-changed", "the union modified its input")
    case.event("union_columns", want.shape[1])
    if len(parts) > 1:
        case.seen("u", want)
    o = u1.transform(sub)
    if case.check(isinstance(o, pd.DataFrame) and o.index.equals(sub.index), "union-shape", "index of the second input is lost") and parts:
        case.check(gen.close(o.values, np.concatenate(subparts, axis=1), 1e-9, 1e-12), "union-values", "the second input's values differ")
