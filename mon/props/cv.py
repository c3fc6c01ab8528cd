"""C01-C03: combinatorial purged cross-validation and backtest paths."""
import itertools
import math

import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop

MIN = 60_000_000_000  # one minute in ns


def _setting(case):
    """Draws data, times and a configuration; returns (cv, X, pred_ns, eval_ns, ...)."""
    from mizarlabs.model.model_selection import CombPurgedKFoldCV

    rng = case.rng
    # groups / test groups
    while True:
        g = int(rng.integers(2, 11 if rng.random() < 0.9 else 36))
        k = int(rng.integers(1, g))
        if math.comb(g, k) <= 130:
            break
    n = int(rng.integers(g, gen.pick(rng, g + 3, 30, 80, 160) + g))
    if case.idx % 100 == 57:  # longer histories
        n = int(rng.integers(260, 700))
    long = gen.long_n(case, every=400, high=4000)
    if long:
        n, g, k = long, 3 if long > 5000 else int(rng.integers(3, 9)), 1
    style = gen.pick(rng, "bars", "bars", "real", "ties", "regular")
    if style == "real":
        idx = gen.real_bars().index
        s = int(rng.integers(0, max(1, len(idx) - n)))
        pred = idx[s : s + n].asi8.copy()
        n = len(pred)
    elif style == "ties":
        pred = np.sort(rng.integers(0, max(2, n // 2), n)) * MIN + pd.Timestamp("2020-01-01").value
    elif style == "regular":
        pred = np.arange(n) * MIN + pd.Timestamp("2020-01-01").value
    else:
        pred = gen.time_index(rng, n).asi8.copy()
    if n < g:
        g = n
        k = min(k, g - 1)
    step = max(1, int(np.median(np.diff(pred)))) if n > 1 else MIN
    hk = gen.pick(rng, "zero", "const", "bars", "random", "long", "heavy", "mixed")
    zone = gen.pick(rng, "UTC", "Europe/Amsterdam") if rng.random() < 0.08 else None
    if hk == "zero":
        ev = pred.copy()
    elif hk == "const":
        ev = pred + step * int(rng.integers(0, 6))
    elif hk == "bars":
        h = int(rng.integers(1, max(2, n // 2)))
        ev = pred[np.minimum(np.arange(n) + h, n - 1)]
    elif hk == "random":
        ev = pred + rng.integers(0, 5 * step + 1, n)
    elif hk == "long":
        ev = pred + step * int(rng.integers(n // 2, 2 * n + 1))
    elif hk == "heavy":
        ev = pred + (step * rng.pareto(1.0, n).clip(0, 3 * n)).astype(np.int64)
    else:
        ev = np.where(rng.random(n) < 0.9, pred, pred[np.minimum(np.arange(n) + n // 3 + 1, n - 1)])
    ev = np.maximum(ev, pred)
    ek = gen.pick(rng, "zero", "small", "exact", "group", "huge", "ns")
    if ek == "zero":
        emb = 0
    elif ek == "small":
        emb = int(rng.integers(0, 3 * step + 1))
    elif ek == "exact":  # puts sample starts exactly on the edge of the embargo
        i, j = sorted(rng.integers(0, n, 2))
        emb = max(0, int(pred[j] - ev[i]))
    elif ek == "group":
        emb = int(step * (n // g) * rng.uniform(0.3, 2.5))
    elif ek == "huge":
        emb = int(pred[-1] - pred[0]) + step
    else:
        emb = 1
    ik = gen.pick(rng, "time", "range", "offset")
    if ik == "time":
        index = pd.DatetimeIndex(pred)
    elif ik == "range":
        index = pd.RangeIndex(n)
    else:
        index = pd.Index(np.arange(n) * 3 + 7)
    pt = pd.Series(pd.DatetimeIndex(pred), index=index)
    et = pd.Series(pd.DatetimeIndex(ev), index=index)
    if zone:
        pt, et = (s.dt.tz_localize("UTC").dt.tz_convert(zone) for s in (pt, et))
    X = pd.DataFrame(rng.normal(size=(n, int(rng.integers(1, 4)))), index=index)
    case.param(n=n, groups=g, test_groups=k, times=style, horizon=hk, embargo=ek, index=ik)
    args = dict(n_groups=g, n_test_splits=k, pred_times=pt, eval_times=et)
    if emb or rng.random() < 0.7:
        args["embargo_td"] = pd.Timedelta(emb, "ns")
    cv = CombPurgedKFoldCV(**args)
    return cv, X, pred, ev, emb, g, k, n, args


def _admissible(pred, ev, emb, test):
    """Samples that neither overlap a test sample nor start in its embargo."""
    ok = np.ones(len(pred), dtype=bool)
    ok[test] = False
    if len(pred) > 1000:  # samples that end before the first test sample, or start after the last embargo ...
        sure = (ev < pred[test].min()) | (pred > ev[test].max() + emb)
        rest = np.flatnonzero(ok & ~sure)
        ok[rest] = [bool(((ev[i] < pred[test]) | (pred[i] > ev[test] + emb)).all()) for i in rest]
        return ok
    for j in test:
        ok &= (ev < pred[j]) | (pred > ev[j] + emb)
    return ok


@prop(
    "C01", quick=1500, thorough=40000,
    rule="a case is one drawn set of sample times, groups, test groups and embargo, all splits of it "
    "observed; non-trivial: at least one split had to purge or embargo a sample (distinct by times, "
    "configuration and embargo)",
    assumptions=["prediction times are non-decreasing and evaluation times not before them, as the class documents"],
)
def c01(case):
    cv, X, pred, ev, emb, g, k, n, _ = _setting(case)
    purged = 0
    for train, test in cv.split(X):
        case.event("splits")
        train, test = np.asarray(train), np.asarray(test)
        both = np.intersect1d(train, test)
        case.check(len(both) == 0, "train-and-test", lambda: f"samples {both[:5]} in both sets")
        if len(train) == 0:
            case.event("empty_training_sets")
            purged += 1
            continue
        for j in test:
            overlap = (pred[train] <= ev[j]) & (ev[train] >= pred[j])
            case.event("train_test_pairs", len(train))
            if overlap.any():
                i = train[overlap][0]
                case.fail("overlap", f"train sample {i} [{pred[i]}, {ev[i]}] overlaps test sample {j} [{pred[j]}, {ev[j]}]")
                break
            late = (train > j) & (pred[train] <= ev[j] + emb)
            late &= ~((train > j) & (pred[train] < pred[j]))
            if late.any():
                i = train[late][0]
                case.fail("embargo", f"train sample {i} at {pred[i]} within embargo {emb} of test sample {j} ending {ev[j]}")
                break
        purged += n - len(train) - len(test) > 0
        case.event("samples_purged_or_embargoed", n - len(train) - len(test))
    if purged:
        case.seen(pred, ev, g, k, emb)


@prop(
    "C02", quick=1000, thorough=40000,
    rule="a case is one drawn set of sample times, groups, test groups and embargo, all splits compared with "
    "an independently computed test set and admissible training set; non-trivial: distinct setting with at least two splits",
    assumptions=["prediction times are non-decreasing and evaluation times not before them, as the class documents"],
)
def c02(case):
    cv, X, pred, ev, emb, g, k, n, args = _setting(case)
    rng = case.rng
    y = pd.Series(rng.integers(0, 2, n), index=X.index)
    keep = gen.snapshot((args["pred_times"], args["eval_times"], X, y))
    splits = [(np.asarray(a).copy(), np.asarray(b).copy()) for a, b in cv.split(X, y)]
    case.event("splits", len(splits))
    base, rest = divmod(n, g)
    sizes = [base + (i < rest) for i in range(g)]
    # the groups are recovered from the test sets: atoms of the family of test sets
    member = np.zeros((n, len(splits)), dtype=bool)
    for s, (_, test) in enumerate(splits):
        ok = case.check(
            len(test) == 0 or (test.min() >= 0 and test.max() < n), "test-range", "test positions out of range"
        )
        if not ok:
            return
        case.check(np.all(np.diff(test) > 0), "test-order", "test positions not strictly increasing")
        member[test, s] = True
    expected = math.comb(g, k)
    case.check(len(splits) == expected, "split-count", f"{len(splits)} splits instead of {expected}")
    case.check(cv.get_n_splits() == expected, "announced", f"announces {cv.get_n_splits()} instead of {expected}")
    cuts = np.flatnonzero((member[1:] != member[:-1]).any(axis=1)) + 1
    bounds = [0, *cuts.tolist(), n]
    got_sizes = np.diff(bounds)
    if not case.check(len(got_sizes) == g, "groups", f"{len(got_sizes)} groups instead of {g}"):
        return
    case.check(got_sizes.max() - got_sizes.min() <= 1, "group-sizes", f"group sizes {got_sizes}")
    # every combination exactly once
    combos = [tuple(np.flatnonzero(member[[b for b in bounds[:-1]], s])) for s in range(len(splits))]
    case.check(
        sorted(combos) == sorted(itertools.combinations(range(g), k)), "combinations",
        lambda: f"combinations tested {combos[:10]}",
    )
    if combos:
        case.check(combos[0] == tuple(range(g - k, g)), "first-split", f"first split tests groups {combos[0]}")
    for s, (train, test) in enumerate(splits):
        full = np.concatenate([np.arange(bounds[i], bounds[i + 1]) for i in combos[s]])
        case.check(np.array_equal(full, test), "test-set", f"split {s} tests only part of its groups")
        want = np.flatnonzero(_admissible(pred, ev, emb, test))
        case.check(
            np.array_equal(np.sort(train), want), "train-set",
            lambda: f"split {s} (test groups {combos[s]}): missing {np.setdiff1d(want, train)[:8]}, extra {np.setdiff1d(train, want)[:8]}",
        )
        case.check(len(np.unique(train)) == len(train), "train-dup", "repeated training sample")
        if len(train) and len(test):
            X.iloc[train], X.iloc[test]
    # feature values and repetition do not matter
    X2 = pd.DataFrame(rng.normal(size=(n, 2)), index=X.index)
    again = list(cv.split(X2))
    ok = len(again) == len(splits) and all(np.array_equal(a, c) and np.array_equal(b, d) for (a, b), (c, d) in zip(splits, again))
    case.check(ok, "repeat", "a second pass gives other splits")
    if case.idx % 3 == 0:  # two passes at the same time
        one, two, seen = iter(cv.split(X)), iter(cv.split(X2)), ([], [])
        while one or two:
            w = int(rng.integers(2)) if one and two else 0 if one else 1
            try:
                a, b = next(one if w == 0 else two)
                seen[w].append((np.array(a), np.array(b)))
            except StopIteration:
                one, two = (None, two) if w == 0 else (one, None)
        for s in seen:
            ok = len(s) == len(splits) and all(np.array_equal(a, c) and np.array_equal(b, d) for (a, b), (c, d) in zip(splits, s))
            case.check(ok, "interleaved", "two passes at the same time give other splits")
        case.event("interleaved_passes", 2)
    case.check(gen.same(keep, (args["pred_times"], args["eval_times"], X, y)), "input-changed", "splitting changed its input")
    if len(splits) > 1:
        case.seen(pred, ev, g, k, emb)
    if case.idx % 10 == 0:
        _refused_settings(case, args)


def _refused_settings(case, args):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV

    g = args["n_groups"]
    for kw in (
        dict(n_test_splits=0), dict(n_test_splits=g), dict(n_test_splits=g + 1), dict(n_test_splits=-1),
        dict(n_test_splits=1.5),
        dict(embargo_td=pd.Timedelta(-1, "ns")), dict(embargo_td=pd.Timedelta(-1, "D")),
        dict(embargo_td=5), dict(pred_times=None), dict(eval_times=None),
        dict(pred_times=list(args["pred_times"])), dict(eval_times=args["eval_times"].values),
    ):
        bad = {**args, **kw}
        case.refuses(f"accepts-{sorted(kw)[0]}", lambda: CombPurgedKFoldCV(**bad))


class _SpyPipeline:
    """A signal pipeline whose predictions carry the id of the fit and of the row."""

    def __init__(self, n, n_classes, total):
        self.fits, self.predicted, self.n, self.c, self.total = [], [], n, n_classes, total
        self.y_seen, self.params = [], []
        self.proba_rows = []

    def fit(self, X, y, **kw):
        self.fits.append(np.asarray(X)[:, 0].astype(int).copy())
        self.y_seen.append(np.asarray(y).copy())
        self.params.append(kw)
        self.predicted.append([])
        self.proba_rows.append([])
        return self

    def predict(self, X):
        rows = np.asarray(X)[:, 0].astype(int)
        self.predicted[-1].extend(rows.tolist())
        return (len(self.fits) - 1) * self.n + rows

    def predict_proba(self, X):
        rows = np.asarray(X)[:, 0].astype(int)
        self.proba_rows[-1].extend(rows.tolist())
        ids = (len(self.fits) - 1) * self.n + rows
        top = 0.5 + (ids + 1) / (2.0 * (self.total + 2))
        out = np.repeat(((1 - top) / (self.c - 1))[:, None], self.c, axis=1)
        out[np.arange(len(rows)), ids % self.c] = top
        return out


class _CoarsePipeline:
    """A classifier with few distinct outputs, so that predictions of different fits coincide."""

    def __init__(self, rng, n):
        self.rng, self.n, self.fit_no, self.made = rng, n, -1, {}
        self.levels = int(rng.integers(1, 4))

    def fit(self, X, y, **kw):
        self.fit_no += 1
        self.value = int(self.rng.integers(0, self.levels))
        return self

    def predict(self, X):
        for r in X[:, 0].astype(int):
            self.made.setdefault(int(r), {})[self.fit_no] = self.value
        return np.full(len(X), self.value)

    def predict_proba(self, X):
        p = 0.6 + 0.1 * self.value
        return np.tile([1 - p, p], (len(X), 1))


@prop(
    "C03", quick=420, thorough=9000,
    rule="a case is one backtest over a drawn configuration with a classifier that stamps every prediction with its "
    "fit and its row; non-trivial: distinct configuration with at least two groups and all paths decoded",
    assumptions=["sample times are unique, so that a sample can be identified in a path"],
)
def c03(case):
    from mizarlabs.model.model_selection import (
        CombPurgedKFoldCV, combinatorial_cross_validation_paths, compute_back_test_paths,
    )

    rng = case.rng
    for _ in range(20):
        gg = int(rng.integers(2, 14))
        kk = int(rng.integers(1, gg))
        case.check(
            compute_back_test_paths(gg, kk) == math.comb(gg - 1, kk - 1), "path-count-formula",
            lambda: f"compute_back_test_paths({gg}, {kk}) = {compute_back_test_paths(gg, kk)}",
        )
    while True:
        g = int(rng.integers(2, 8))
        k = int(rng.integers(1, g))
        if math.comb(g, k) <= 35:
            break
    n = int(rng.integers(g, 40 + g))
    if case.idx % 40 == 11:
        n = int(rng.integers(260, 420))
    if case.idx == 7:
        n, g, k = int(rng.integers(1500, 2500)), 4, 2
    index = gen.time_index(rng, n)
    h = int(rng.integers(0, 5))
    ev = pd.Series(index[np.minimum(np.arange(n) + h, n - 1)], index=index)
    pt = pd.Series(index, index=index)
    emb = pd.Timedelta(int(rng.integers(0, 3)) * 1000, "ms")
    cv = CombPurgedKFoldCV(n_groups=g, n_test_splits=k, pred_times=pt, eval_times=ev, embargo_td=emb)
    ref = [(set(map(int, a)), set(map(int, b))) for a, b in CombPurgedKFoldCV(
        n_groups=g, n_test_splits=k, pred_times=pt, eval_times=ev, embargo_td=emb).split(pd.DataFrame(index=index))]
    label = gen.pick(rng, "label", "target")
    X = pd.DataFrame({"row": np.arange(n, dtype=float), "noise": rng.normal(size=n)}, index=index)
    y = pd.DataFrame({label: rng.integers(-1, 2, n), "info": rng.normal(size=n)}, index=index)
    total = len(ref) * n
    pipe = _SpyPipeline(n, int(rng.integers(2, 4)), total)
    fit_params = gen.pick(rng, {}, {"flag": 3})
    X0, y0 = X.copy(), y.copy()
    out = combinatorial_cross_validation_paths(X, y, cv, pipe, fit_params, label_column_name=label)
    got = list(out)
    paths = got[0] if len(got) == 1 and isinstance(got[0], list) else got
    case.param(n=n, groups=g, test_groups=k, horizon=h, splits=len(ref), paths=len(paths))
    case.check(X.equals(X0) and y.equals(y0), "input-changed", "the backtest changed its input")
    want_paths = math.comb(g - 1, k - 1)
    case.check(len(paths) == want_paths, "path-count", f"{len(paths)} paths instead of {want_paths}")
    # every fit is a fit on the training set of one split, and predicts exactly its test set
    left = list(ref)
    for f, rows in enumerate(pipe.fits):
        key = (set(rows.tolist()), set(pipe.predicted[f]))
        if key in left:
            left.remove(key)
        else:
            case.fail("fit-split", f"fit {f} does not match any remaining split (train {sorted(key[0])[:6]}.., predicts {sorted(key[1])[:6]}..)")
        case.check(np.array_equal(pipe.y_seen[f], y[label].values[rows]), "fit-labels", "labels do not belong to the training rows")
        case.check(pipe.params[f] == fit_params, "fit-params", f"fit parameters {pipe.params[f]}")
    case.check(not left, "split-missing", f"{len(left)} splits were never fitted")
    used = []
    for p, path in enumerate(paths):
        case.event("paths")
        if not case.check(
            isinstance(path, pd.DataFrame) and {"predictions", "max_proba", label, "info"} <= set(path.columns),
            "path-columns", lambda: f"columns {list(getattr(path, 'columns', []))}",
        ):
            return
        pos = index.get_indexer(path.index)
        case.check(
            len(pos) == n and np.array_equal(np.sort(pos), np.arange(n)), "path-cover",
            lambda: f"path {p} has {len(pos)} rows, {len(np.unique(pos))} distinct samples of {n}",
        )
        ids = path["predictions"].values.astype(int)
        case.check(np.array_equal(ids % n, pos), "row-mismatch", "a prediction belongs to another sample")
        for fid, r in zip(ids // n, pos):
            if r in set(pipe.fits[fid].tolist()):
                case.fail("in-sample", f"sample {r} predicted by a model trained on it")
                break
        top = 0.5 + (ids + 1) / (2.0 * (total + 2))
        case.check(np.allclose(path["max_proba"].values, top, atol=1e-12), "max-proba", "class probability is not that of the prediction")
        case.check(np.array_equal(path[label].values, y[label].values[pos]), "path-labels", "labels of another sample")
        case.check(np.array_equal(path["info"].values, y["info"].values[pos]), "path-info", "target info of another sample")
        used.extend(ids.tolist())
        case.event("predictions_decoded", len(ids))
    made = [f * n + r for f, rows in enumerate(pipe.predicted) for r in set(rows)]
    case.check(sorted(used) == sorted(made), "exactly-once", f"{len(used)} predictions used, {len(made)} made, {len(set(used))} distinct")
    case.seen(g, k, n, index.asi8, h, len(paths))
    if case.idx % 2:
        return
    # the same backtest with a classifier whose fits often agree: every single prediction is still used once
    pipe = _CoarsePipeline(rng, n)
    got = list(combinatorial_cross_validation_paths(X, y, cv, pipe, {}, label_column_name=label))
    paths = got[0] if len(got) == 1 and isinstance(got[0], list) else got
    used = {}
    for path in paths:
        for r, v in zip(index.get_indexer(path.index), path["predictions"].values):
            used.setdefault(int(r), []).append(int(v))
    for r in range(n):
        want = sorted(pipe.made.get(r, {}).values())
        if not case.check(
            sorted(used.get(r, [])) == want, "exactly-once-ties",
            lambda: f"sample {r}: predictions {sorted(used.get(r, []))} in the paths, {want} made",
        ):
            break
    case.event("coarse_backtests")
