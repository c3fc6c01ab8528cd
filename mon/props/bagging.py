"""C14-C16: sequentially bootstrapped bagging."""
import contextlib

import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop
from mon.props.sampling import END, SpyState, draw_labels, probs_from_log, ref_matrix, ref_prob


def draw_data(case, max_n=22, min_classes=2, wide=False):
    """Labels known to the classifier, a subset to fit on, features and classes."""
    rng = case.rng
    while True:
        ends, index, kind = draw_labels(rng, max_n=max_n, unique=True)
        if len(ends) >= 4:
            break
    n = len(ends)
    col = gen.pick(rng, END, END, "t1")
    ends = ends.rename(col)
    bars = pd.DataFrame({"close": gen.prices(rng, len(index))}, index=index)
    sub = np.arange(n)
    subset = gen.pick(rng, "all", "subset", "subset", "shuffled")
    if subset != "all":
        sub = rng.permutation(n)[: int(rng.integers(3, n + 1))]
        if subset == "subset":
            sub = np.sort(sub)
    k = len(sub)
    F = int(rng.integers(1, 6))
    if wide and rng.random() < 0.15:
        F = int(rng.integers(6, 16))
    # value identifies sample and feature
    vals = np.arange(k)[:, None] * 100.0 + np.arange(F)[None, :]
    X = pd.DataFrame(vals, index=ends.index[sub], columns=[f"f{j}" for j in range(F)])
    classes = gen.pick(rng, [-1, 1], [0, 1], [-1, 0, 1], [2, 5, 9])
    yv = np.array(classes)[rng.integers(0, len(classes), k)]
    yv[:2] = classes[:2]
    y = pd.Series(yv, index=X.index)
    case.param(labels=n, fitted=k, subset=subset, features=F, shape=kind, classes=classes)
    return ends, bars, col, X, y, sub


def draw_limits(rng, k, F):
    ms = gen.pick(rng, 1.0, float(rng.uniform(0.35, 1.0)), int(rng.integers(1, k + 1)))
    if isinstance(ms, float) and int(ms * k) < 1:
        ms = 1.0
    mf = gen.pick(rng, 1.0, float(rng.uniform(0.01, 1.0)), int(rng.integers(1, F + 1)))
    return ms, mf


def backend(name):
    import joblib

    if name is None:
        return contextlib.nullcontext()
    return joblib.parallel_backend(name)


def make(ends, bars, col, **kw):
    from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier

    if col != END:
        kw["event_end_time_column_name"] = col
    return SequentiallyBootstrappedBaggingClassifier(ends, bars, **kw)


@contextlib.contextmanager
def spied():
    """np.random.RandomState is replaced by a subclass that records weighted draws."""
    made, real = [], np.random.RandomState

    class Spy(SpyState):
        def __init__(self, seed=None):
            super().__init__(seed)
            made.append(self)

    np.random.RandomState = Spy
    try:
        yield made
    finally:
        np.random.RandomState = real


def jobs(rng):
    j = gen.pick(rng, None, None, 1, 2, 3)
    b = None if j in (None, 1) else "threading"
    return j, b


@prop(
    "C14", quick=500, thorough=12000, workers=6,
    rule="a case is one classifier configuration and data set; every base estimator records what it was fitted with, and the "
    "random states record the probabilities used; non-trivial: at least one estimator fitted (distinct by draws, features and data)",
    assumptions=["label start times are unique", "base estimators are recorders with and without weight support"],
)
def c14(case):
    from mon.estimators import PlainRecorder, WeightedRecorder, WeightedVoter

    rng = case.rng
    skewed = case.idx % 25 == 0
    if skewed:
        return distribution(case)
    ends, bars, col, X, y, sub = draw_data(case, max_n=60 if rng.random() < 0.1 else 22, wide=True)
    k, F = X.shape
    kind = gen.pick(rng, "weighted", "weighted", "plain", "voter")
    base = {"weighted": WeightedRecorder, "plain": PlainRecorder, "voter": WeightedVoter}[kind]()
    ms, mf = draw_limits(rng, k, F)
    boot = bool(rng.random() < 0.4)
    m = int(rng.integers(1, 7))
    every = int(gen.pick(rng, 1, 1, 2, 5))
    j, b = jobs(rng)
    w = None
    if kind != "plain" and rng.random() < 0.5:
        w = np.round(rng.uniform(0, 4, k) * 4) / 4 + (0 if rng.random() < 0.5 else 0.25)
        w = w * float(gen.pick(rng, 1, 1, 1, 2.0**-40, 2.0**30))
    wv = None if w is None else gen.pick(rng, w.copy(), pd.Series(w, index=X.index))
    case.param(base=kind, max_samples=ms, max_features=mf, bootstrap_features=boot, n_estimators=m, refresh=every, n_jobs=j, weights=w is not None)
    clf = make(ends, bars, col, base_estimator=base, n_estimators=m, max_samples=ms, max_features=mf,
               bootstrap_features=boot, random_state=int(rng.integers(0, 10**6)), n_jobs=j, update_probs_every=every)
    keep = gen.snapshot((X, y, ends, bars, w))
    with backend(b), spied() as states:
        if wv is None:
            clf.fit(X, y)
        else:
            clf.fit(X, y, sample_weight=wv)
    case.check(gen.same(keep, (X, y, ends, bars, w)), "input-changed", "fitting changed its input")
    if wv is not None:
        case.check(np.array_equal(np.asarray(wv), w), "input-changed", "fitting changed the sample weights")
    want_draws = ms if isinstance(ms, int) else int(ms * k)
    want_feats = mf if isinstance(mf, int) else max(1, int(mf * F))
    if not case.check(
        len(clf.estimators_) == len(clf.estimators_samples_) == len(clf.estimators_features_) == m, "counts",
        lambda: f"{len(clf.estimators_)} estimators, {len(clf.estimators_samples_)} samples, {len(clf.estimators_features_)} features, expected {m}",
    ):
        return
    for e, samples, feats in zip(clf.estimators_, clf.estimators_samples_, clf.estimators_features_):
        samples, feats = np.asarray(samples), np.asarray(feats)
        case.check(len(samples) == want_draws, "number-of-draws", f"{len(samples)} draws, expected {want_draws} (max_samples={ms}, {k} samples)")
        case.check(len(feats) == want_feats, "number-of-features", f"{len(feats)} features, expected {want_feats} (max_features={mf} of {F})")
        if not boot:
            case.check(len(set(feats.tolist())) == len(feats), "features-repeated", "features drawn twice without feature bootstrap")
        if not case.check(((samples >= 0) & (samples < k)).all() and ((feats >= 0) & (feats < F)).all(), "range", "draw out of range"):
            return
        # what the estimator was really given
        seen = e.seen_X_
        if not case.check(seen.ndim == 2 and seen.shape[1] == len(feats), "fitted-features", f"fitted on {seen.shape}, features {feats}"):
            continue
        ids, fids = seen[:, 0] // 100, seen[0] % 100
        ok = np.array_equal(fids, feats) and np.array_equal(seen, ids[:, None] * 100 + fids[None, :])
        if not case.check(ok, "fitted-features", lambda: f"fitted on features {fids.astype(int).tolist()}, reported {feats.tolist()}"):
            continue
        ids = ids.astype(int)
        # labels may arrive encoded or as they were given
        enc = np.searchsorted(clf.classes_, y.values)
        good = np.array_equal(e.seen_y_, y.values[ids]) or np.array_equal(e.seen_y_, enc[ids])
        case.check(good, "fitted-labels", "fitted with labels of other samples")
        mass = np.zeros(k)
        np.add.at(mass, ids, 1.0 if e.seen_w_ is None else e.seen_w_)
        want = np.bincount(samples, minlength=k) * (1.0 if w is None else w)
        case.check(gen.close(mass, want, 1e-9, 0), "fitted-samples", lambda: f"weights per sample {mass.tolist()}, drawn {want.tolist()}")
        if kind != "plain":
            case.check(e.seen_w_ is not None, "no-weights", "the estimator supports weights and got none")
        case.event("estimators_observed")
        case.event("draws_observed", len(samples))
        case.seen(np.sort(samples), feats, X.index.asi8, kind)
    # the draws follow the overlap of the labels fitted
    t, M = ref_matrix(ends, bars.index.asi8)
    M = M[:, sub]
    for st in states:
        weighted = [c for c in st.log if c[1] is not None]
        if not weighted:
            continue
        steps = probs_from_log(weighted, k)
        if not case.check(steps is not None, "draw-population", f"drawn from other positions than the {k} samples fitted") or steps is None:
            return
        drawn = []
        for p, out in steps:
            base_n = (len(drawn) // every) * every
            want = ref_prob(M, drawn[:base_n])
            case.event("probability_vectors")
            if not case.check(gen.close(p, want, 5e-5, 1e-7), "draw-probabilities", lambda: f"before draw {len(drawn)}: " + gen.first_diff(p, want, 5e-5, 1e-7)):
                return
            drawn += out.tolist()
    if rng.random() < 0.1:
        bad = make(ends, bars, col, base_estimator=PlainRecorder(), n_estimators=1)
        case.refuses("weights-unsupported", lambda: bad.fit(X, y, sample_weight=np.ones(k)))
    if rng.random() < 0.1:
        other = X.copy()
        other.index = other.index + pd.Timedelta(days=4000)
        case.refuses("unknown-labels", lambda: make(ends, bars, col, n_estimators=1).fit(other, pd.Series(y.values, index=other.index)))


def distribution(case):
    """Draws of many estimators against the probabilities of the subset, without looking inside."""
    from mon.estimators import WeightedRecorder

    rng = case.rng
    # a crowd of overlapping labels and a few that are alone, interleaved
    nb = 120
    index = gen.time_index(rng, nb, "regular")
    st = np.sort(rng.choice(60, 14, replace=False))
    S = np.concatenate((st, np.arange(65, 115, 5)))
    E = np.concatenate((np.full(14, 62), np.arange(65, 115, 5) + 3))
    order = np.argsort(S)
    ends = pd.Series(index[E[order]], index=index[S[order]], name=END)
    sub = np.sort(rng.choice(len(ends), 16, replace=False))
    if rng.random() < 0.5:
        sub = rng.permutation(sub)
    X = pd.DataFrame({"f": np.arange(16) * 100.0}, index=ends.index[sub])
    y = pd.Series(np.tile([0, 1], 8), index=X.index)
    clf = make(ends, pd.DataFrame({"close": 1.0}, index=index), END, base_estimator=WeightedRecorder(), n_estimators=60, max_samples=14,
               random_state=int(rng.integers(10**6)))
    clf.fit(X, y)
    t, M = ref_matrix(ends, index.asi8)
    M = M[:, sub]
    num = var = 0.0
    for s in clf.estimators_samples_:
        s = [int(v) for v in s]
        for q in range(len(s)):
            p = ref_prob(M, s[:q])
            lp = np.log(p)
            mean = (p * lp).sum()
            num += lp[s[q]] - mean
            var += (p * (lp - mean) ** 2).sum()
    z = num / np.sqrt(var)
    case.param(kind="distribution", z=round(float(z), 2))
    case.event("distribution_checks")
    case.event("draws_observed", 60 * 14)
    case.check(abs(z) < 7, "draw-distribution", lambda: f"log-likelihood of the draws is {z:.1f} standard deviations from the one expected")
    case.seen([list(map(int, s)) for s in clf.estimators_samples_])


def real_base(rng):
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.tree import DecisionTreeClassifier

    from mon.estimators import PlainRecorder, WeightedRecorder, WeightedVoter

    return gen.pick(
        rng, None, DecisionTreeClassifier(max_depth=2), DecisionTreeClassifier(max_features=1, splitter="random"), GaussianNB(var_smoothing=1e-3),
        LogisticRegression(max_iter=30), WeightedRecorder(), WeightedVoter(),
    )


def state_of(clf, X):
    return (
        [np.asarray(s).tolist() for s in clf.estimators_samples_],
        [np.asarray(f).tolist() for f in clf.estimators_features_],
        clf.predict_proba(X),
        clf.predict(X),
    )


def equal_state(case, kind, what, a, b):
    case.event("fits_compared")
    case.check(a[0] == b[0], kind + "-draws", lambda: f"{what}: other draws")
    case.check(a[1] == b[1], kind + "-features", lambda: f"{what}: other features")
    case.check(gen.close(a[2], b[2], 1e-7, 1e-9), kind + "-probabilities", lambda: f"{what}: " + gen.first_diff(a[2], b[2], 1e-7, 1e-9))
    margin = np.sort(a[2], axis=1)
    sure = margin[:, -1] - (margin[:, -2] if a[2].shape[1] > 1 else 0) > 1e-6
    case.check(np.array_equal(a[3][sure], b[3][sure]), kind + "-predictions", f"{what}: other predictions")


@prop(
    "C15", quick=160, thorough=5000, workers=6,
    rule="a case fits one configuration repeatedly: on a new object, on the same object, with other numbers of jobs (threads and "
    "processes) and grown in warm-start steps; non-trivial: at least two fits compared (distinct by draws and data)",
    assumptions=["integer random states", "label start times are unique"],
)
def c15(case):
    rng = case.rng
    ends, bars, col, X, y, sub = draw_data(case, max_n=16)
    X = X + np.round(rng.normal(0, 20, X.shape), 2)
    k, F = X.shape
    ms, mf = draw_limits(rng, k, F)
    base = real_base(rng)
    if type(base).__name__ in ("LogisticRegression", "GaussianNB"):
        # these cannot be fitted on a single class
        y[:] = np.where(np.arange(k) % 2 == 0, y.values[0], y.values[1])
    m = int(rng.integers(2, 8)) if rng.random() < 0.85 else int(rng.integers(8, 16))
    seed = int(rng.integers(0, 10**6))
    kw = dict(base_estimator=base, max_samples=ms, max_features=mf, bootstrap_features=bool(rng.random() < 0.3),
              random_state=seed, update_probs_every=int(gen.pick(rng, 1, 1, 3)))
    case.param(base=type(base).__name__, n_estimators=m, max_samples=ms, max_features=mf, seed=seed)
    w = None if rng.random() < 0.7 else rng.uniform(0.5, 2, k)
    fkw = {} if w is None else {"sample_weight": w}

    def fit(clf, b=None):
        with backend(b):
            clf.fit(X, y, **fkw)
            return state_of(clf, X)

    first = make(ends, bars, col, n_estimators=m, **kw)
    one = fit(first)
    case.check(len(first.estimators_) == m, "size", f"{len(first.estimators_)} estimators, expected {m}")
    equal_state(case, "refit", "the same object fitted again", one, fit(first))
    np.random.seed(int(rng.integers(2**31)))  # global state must not matter
    equal_state(case, "repeat", "a new object", one, fit(make(ends, bars, col, n_estimators=m, **kw)))
    for nj in {int(gen.pick(rng, 2, 3)), int(gen.pick(rng, 4, 7, -1))}:
        equal_state(case, "jobs", f"n_jobs={nj} (threads)", one, fit(make(ends, bars, col, n_estimators=m, n_jobs=nj, **kw), "threading"))
    if case.idx % (20 if case.tier == "quick" else 8) == 3:
        equal_state(case, "processes", "n_jobs=2 (processes)", one, fit(make(ends, bars, col, n_estimators=m, n_jobs=2, **kw), "loky"))
        case.event("multi_process_fits")
    # warm start
    sizes = sorted({int(v) for v in rng.integers(1, m + 1, 2)} | {m})
    grown = make(ends, bars, col, n_estimators=sizes[0], warm_start=True, n_jobs=gen.pick(rng, None, 2), **kw)
    kept = []
    with backend("threading"):
        for s in sizes:
            grown.set_params(n_estimators=s) if rng.random() < 0.5 else setattr(grown, "n_estimators", s)
            grown.fit(X, y, **fkw)
            case.check(
                len(grown.estimators_) == s and all(a is b for a, b in zip(kept, grown.estimators_)), "warm-start-keeps",
                f"growing to {s} estimators gives {len(grown.estimators_)} or replaces the ones already there",
            )
            kept = list(grown.estimators_)
        equal_state(case, "warm-start", f"grown in steps {sizes}", one, state_of(grown, X))
    # predictions are averages of the base estimators on their own features
    Xa = X.values
    probs = np.zeros((k, len(first.classes_)))
    fit(first)
    for e, f in zip(first.estimators_, first.estimators_features_):
        if hasattr(e, "predict_proba"):
            p = e.predict_proba(Xa[:, f])
            for c, cl in enumerate(e.classes_):
                probs[:, int(cl)] += p[:, c]
        else:
            probs[np.arange(k), e.predict(Xa[:, f]).astype(int)] += 1
    probs /= m
    case.check(gen.close(one[2], probs, 1e-7, 1e-9), "average", lambda: "class probabilities are not the average: " + gen.first_diff(one[2], probs, 1e-7, 1e-9))
    rank = np.sort(probs, axis=1)
    sure = rank[:, -1] - rank[:, -2] > 1e-6
    case.check(np.array_equal(one[3][sure], first.classes_[probs.argmax(axis=1)][sure]), "predict", "prediction is not the most probable class")
    case.seen(one[0], X.values, m)


@prop(
    "C16", quick=400, thorough=10000, workers=6,
    rule="a case fits one ensemble with out-of-bag scoring; the decision function and score are recomputed from what each base "
    "estimator was really trained on; non-trivial: a sample with an out-of-bag estimate (distinct by draws and data)",
    assumptions=["class sums that tie to one part in a million may be ranked either way; samples without estimate may count either way"],
)
def c16(case):
    from mon.estimators import PlainRecorder, WeightedRecorder, WeightedVoter
    from sklearn.tree import DecisionTreeClassifier

    rng = case.rng
    ends, bars, col, X, y, sub = draw_data(case, max_n=gen.pick(rng, 6, 22, 40))
    k, F = X.shape
    noisy = rng.random() < 0.5
    from sklearn.neighbors import KNeighborsClassifier

    base = gen.pick(rng, WeightedRecorder(), WeightedRecorder(), PlainRecorder(), WeightedVoter(), WeightedVoter(), KNeighborsClassifier(1),
                    DecisionTreeClassifier(max_depth=1), DecisionTreeClassifier())
    recorder = hasattr(base, "_remember")
    if noisy and not recorder:
        X = X + np.round(rng.normal(0, 300, X.shape), 1)
    ms, mf = draw_limits(rng, k, F)
    m = int(rng.integers(1, 9))
    j, b = jobs(rng)
    kw = dict(base_estimator=base, n_estimators=m, max_samples=ms, max_features=mf, bootstrap_features=bool(rng.random() < 0.3),
              random_state=int(rng.integers(10**6)), n_jobs=j)
    case.param(base=type(base).__name__, n_estimators=m, max_samples=ms, max_features=mf)
    clf = make(ends, bars, col, oob_score=True, **kw)
    with backend(b):
        clf.fit(X, y)
    Xa = X.values
    K = len(clf.classes_)
    sums = np.zeros((k, K))
    votes = np.zeros(k, dtype=int)
    for e, s, f in zip(clf.estimators_, clf.estimators_samples_, clf.estimators_features_):
        bag = np.zeros(k, dtype=bool)
        if recorder:
            ids = (e.seen_X_[:, 0] // 100).astype(int)
            bag[ids[(e.seen_w_ > 0) if e.seen_w_ is not None else slice(None)]] = True
        else:
            bag[np.asarray(s)] = True
        out = np.flatnonzero(~bag)
        if not len(out):
            case.event("estimators_without_oob_sample")
            continue
        votes[out] += 1
        if hasattr(e, "predict_proba"):
            p = e.predict_proba(Xa[out][:, f])
            for c, cl in enumerate(e.classes_):
                sums[out, int(cl)] += p[:, c]
        else:
            sums[out, e.predict(Xa[out][:, f]).astype(int)] += 1
    with np.errstate(all="ignore"):
        want = sums / sums.sum(axis=1, keepdims=True)
    got = np.asarray(clf.oob_decision_function_, dtype=float)
    if case.check(got.shape == want.shape, "shape", f"{got.shape}, expected {want.shape}"):
        case.check(gen.close(got, want, 1e-7, 1e-9), "decision-function", lambda: gen.first_diff(got, want, 1e-7, 1e-9))
        case.check(np.isnan(got[votes == 0]).all(), "no-estimate", "a sample drawn by every estimator has an estimate")
    own = np.searchsorted(clf.classes_, y.values)
    rank = np.sort(want, axis=1)
    sure = (votes > 0) & (rank[:, -1] - rank[:, -2] > 1e-6)
    right = sure & (np.nan_to_num(want).argmax(axis=1) == own)
    top = np.nan_to_num(rank[:, -1])
    maybe = ~sure & ((votes == 0) | (np.nan_to_num(want)[np.arange(k), own] >= top - 1e-6))
    lo, hi = right.sum() / k, (right.sum() + maybe.sum()) / k
    case.check(lo - 1e-9 <= clf.oob_score_ <= hi + 1e-9, "score", lambda: f"score {clf.oob_score_}, expected {lo} to {hi}")
    case.event("oob_votes", votes.sum())
    case.event("samples_without_estimate", (votes == 0).sum())
    if rng.random() < 0.15:
        case.refuses("warm-start-oob", lambda: make(ends, bars, col, oob_score=True, warm_start=True, **kw).fit(X, y))
    if votes.any():
        case.seen([list(map(int, s)) for s in clf.estimators_samples_], Xa)
