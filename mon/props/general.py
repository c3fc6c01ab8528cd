"""C38-C41: times, copies, columns and random search draws."""
import copy as copying

import numpy as np
import pandas as pd
import cloudpickle

from mon import gen
from mon.core import StopCase, prop
from mon.props import bagging, purity
from mon.props.purity import alike, copy, failed, outcome


# -- moving data in time ---------------------------------------------------

def moved(o, f):
    """o with f applied to all its times."""
    if isinstance(o, dict):
        return {k: moved(v, f) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(moved(v, f) for v in o)
    if isinstance(o, pd.DatetimeIndex):
        r = f(o)
        r.name = o.name
        return r
    if isinstance(o, pd.Timestamp):
        return f(pd.DatetimeIndex([o]))[0]
    if isinstance(o, pd.Series):
        v = o
        if o.dtype.kind == "M":
            v = pd.Series(f(pd.DatetimeIndex(o)), index=o.index, name=o.name)
        return v.set_axis(moved(v.index, f))
    if isinstance(o, pd.DataFrame):
        if not o.columns.is_unique:
            return o.set_axis(moved(o.index, f))
        r = o.copy()
        for c in o.columns:
            if o[c].dtype.kind == "M":
                r[c] = pd.Series(f(pd.DatetimeIndex(o[c])), index=o.index)
        return r.set_axis(moved(o.index, f))
    if isinstance(o, np.ndarray) and o.dtype.kind == "M":
        r = f(pd.DatetimeIndex(o))
        return (r.tz_convert("UTC").tz_localize(None) if r.tz is not None else r).values
    return o


def zones(o):
    """The zones of all times in o."""
    if isinstance(o, dict):
        return set().union(*[zones(v) for v in o.values()]) if o else set()
    if isinstance(o, (list, tuple)):
        return set().union(*[zones(v) for v in o]) if o else set()
    if isinstance(o, pd.DatetimeIndex):
        return {str(o.tz)} if len(o) else set()
    if isinstance(o, pd.Series):
        return zones(o.index) | (zones(pd.DatetimeIndex(o.dropna())) if o.dtype.kind == "M" else set())
    if isinstance(o, pd.DataFrame):
        return zones(o.index).union(*[zones(o.iloc[:, j]) for j in range(o.shape[1])])
    return set()


def nearly_alike(a, b):
    """alike, but with room for the rounding of times as floats, and no fuss about frequencies."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(nearly_alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(nearly_alike(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and a.shape == b.shape and a.columns.equals(b.columns) and a.index.equals(b.index)
                and all(nearly_alike(a.iloc[:, j].values, b.iloc[:, j].values) for j in range(a.shape[1])))
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.index.equals(b.index) and nearly_alike(a.values, b.values)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == "f" and b.dtype.kind == "f":
        if a.shape != b.shape:
            return False
        x, y = np.asarray(a, float), np.asarray(b, float)
        size = np.nanmax(np.abs(np.where(np.isfinite(x), x, np.nan)), initial=0.0)
        return bool(np.allclose(x, y, rtol=1e-7, atol=1e-9 * size, equal_nan=True))
    return alike(a, b)


def timed(case):
    """A component whose data carry times: (name, data, function of the data)."""
    rng = case.rng
    k = case.idx % 12
    if k == 0:
        t = purity.thing_trend(case)

        def run(x):
            cfg = dict(t.config)
            if "t_events" in cfg:
                cfg["t_events"] = x[1]
            from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

            return TrendScannerLabeling(**cfg).transform(x[0])

        return t.name, [t.data, pd.DatetimeIndex(t.config.get("t_events", t.data.index))], run
    if k == 1:
        t = purity.thing_cv(case)
        from mizarlabs.model.model_selection import CombPurgedKFoldCV

        def run(x):
            X, y, p, e = x
            return [list(map(np.asarray, s)) for s in CombPurgedKFoldCV(pred_times=p, eval_times=e, **t.config).split(X, y)]

        return t.name, t.data, run
    if k == 2:
        from sklearn.tree import DecisionTreeClassifier

        ends, bars, col, X, y, sub = bagging.draw_data(case)
        seed = int(rng.integers(2**31))

        def run(x):
            m = bagging.make(x[0], x[1], col, base_estimator=DecisionTreeClassifier(max_depth=2), n_estimators=2, random_state=seed)
            m.fit(x[2], x[3])
            return [m.predict_proba(x[2]), [np.asarray(s) for s in m.estimators_samples_]]

        return "bagging", [ends, bars, X, y], run
    maker = [purity.thing_labels, purity.thing_labels, purity.thing_sampling, purity.thing_sampling, purity.thing_weights, purity.thing_bets,
             purity.thing_breaks, purity.thing_pipeline, purity.thing_feature][k - 3]
    while True:
        t = maker(case)
        if k == 4 and t.name == "get_daily_vol":
            break
        if k not in (4, 5, 6) or t.name in ("CUSUMFilter", "AverageUniqueness", "get_ind_matrix"):
            break
    return t.name, t.data, lambda x: t.use(t.make(), x)


CHANGES = {  # the clocks change at (UTC)
    "America/New_York": ["2019-03-10 07:00", "2018-11-04 06:00"],
    "Australia/Lord_Howe": ["2019-04-06 15:00", "2018-10-06 15:30"],
    "Europe/London": ["2019-03-31 01:00", "2018-10-28 01:00"],
}
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/London"]


@prop(
    "C38", quick=720, thorough=24000, workers=6, env={"NUMBA_OPT": "0"},
    rule="a case is one configured component (labelers, filters, uniqueness, weights, bet sizing, structural break tests, features, strategies, cross-validation, bagging, "
    "strategy pipeline, trader) used on one set of data and on the same data moved in time or expressed in a time zone; the results are compared after moving "
    "their times back; non-trivial: a result (distinct by component and result)",
    assumptions=["results agree up to the rounding of times as floats", "triple-barrier labeling refuses times with a zone"],
)
def c38(case):
    rng = case.rng
    name, data, run = timed(case)
    before = outcome(lambda: run(data))
    first = min([x for x, _ in _spans(data)], default=pd.Timestamp("2000-01-01"))
    ends = gen.pick(rng, *_spans(data)) if list(_spans(data)) else None
    for _ in range(2):
        how = gen.pick(rng, "shift", "shift", "zone", "zone", "fixed")
        if how == "shift":
            lo = max(-(10**12), -(first.value // 10**6) + 1)
            ms = int(gen.pick(rng, rng.integers(lo, 10**12), rng.integers(max(lo, -10**8), 10**8), 86400000 * int(rng.integers(1, 800)), 1))
            d = pd.Timedelta(ms, "ms")
            f, g, where = (lambda i: i + d), (lambda i: i - d), f"times moved by {d}"
            zone = None
        else:
            zone = gen.pick(rng, *ZONES) if how == "zone" else "UTC+05:30"
            if how == "fixed":
                import datetime

                tz = datetime.timezone(datetime.timedelta(minutes=330))
            else:
                tz = zone
            d = pd.Timedelta(0)
            change = CHANGES.get(zone)
            if change and ends:  # somewhere in the data the clocks change
                at = ends[0] + (ends[1] - ends[0]) * float(rng.uniform(-0.05, 1.05))
                d = pd.Timedelta((pd.Timestamp(gen.pick(rng, *change)) - at) // pd.Timedelta(1, "ms"), "ms")
            f = lambda i: (i + d).tz_localize("UTC").tz_convert(tz)
            g = lambda i: (i.tz_convert("UTC").tz_localize(None) if i.tz is not None else i) - d
            where = f"times moved by {d} in {tz}"
        x = moved(data, f)
        try:
            r = copy(run(x))
        except Exception as e:
            if failed(before):
                case.event("refused")
                continue
            if zone and name.startswith(("TripleBarrier",)):
                case.event("zones_refused")
                continue
            case.fail("refused", f"{name}, {where}: {type(e).__name__} {e}")
            return
        if failed(before):
            case.fail("accepted", f"{name}, {where}: accepted what is refused otherwise ({before})")
            return
        if zone:
            case.check(zones(r) <= zones(x), "zone", lambda: f"{name}, {where}: the result has times in {zones(r)}")
        case.check(nearly_alike(before, moved(r, g)), "values", lambda: f"{name}, {where}: other results: {_short(before)} and {_short(moved(r, g))}")
        case.event("shifts" if not zone else "zones")
        if case.failures:
            return
    if not failed(before):
        case.seen(name, repr(before))
    case.param(component=name)


def _short(o):
    return repr(o)[:400]


def _spans(o):
    """First and last times of everything in o."""
    if isinstance(o, dict):
        o = list(o.values())
    if isinstance(o, (list, tuple)):
        for v in o:
            yield from _spans(v)
    elif isinstance(o, pd.DatetimeIndex):
        if len(o):
            yield o.min(), o.max()
    elif isinstance(o, (pd.Series, pd.DataFrame)):
        yield from _spans(o.index)


# -- copies ----------------------------------------------------------------

def thing_ensemble(case):
    """An unfitted ensemble whose draws depend on bars between the labels' times."""
    from sklearn.tree import DecisionTreeClassifier

    rng = case.rng
    nb, n = int(rng.integers(40, 160)), int(rng.integers(8, 20))
    bars = pd.DataFrame({"close": gen.prices(rng, nb)}, index=gen.time_index(rng, nb))
    st = np.sort(rng.choice(nb - 1, n, replace=False))
    en = np.minimum(nb - 1, st + rng.integers(0, int(gen.pick(rng, 6, 40)), n))
    ends = pd.Series(bars.index[en], index=bars.index[st], name="event_end_time")
    X = pd.DataFrame(rng.normal(size=(n, 3)), index=ends.index)
    y = pd.Series(rng.permutation(np.arange(n) % 2), index=ends.index)
    sub = np.sort(rng.choice(n, n - int(rng.integers(0, 4)), replace=False))
    sub = sub if y.iloc[sub].nunique() > 1 else np.arange(n)
    kw = dict(base_estimator=DecisionTreeClassifier(max_depth=2), n_estimators=int(rng.integers(4, 12)), random_state=int(rng.integers(2**31)),
              max_features=float(gen.pick(rng, 1.0, 0.7)), oob_score=bool(rng.random() < 0.3))

    def use(o, x):
        o.fit(x[0], x[1])
        return [o.predict_proba(X), [np.asarray(i) for i in o.estimators_samples_], [np.asarray(f) for f in o.estimators_features_]]

    return purity.Thing("ensemble.fit", lambda: bagging.make(ends, bars, "event_end_time", **kw), use, [X, y], [X.iloc[sub], y.iloc[sub]], config=kw)


COMPONENTS = [
    purity.thing_feature, purity.thing_labels, purity.thing_sampling, purity.thing_weights, purity.thing_bets, purity.thing_breaks,
    purity.thing_pipeline, purity.thing_bagging, purity.thing_trend, purity.thing_cv, thing_ensemble, purity.thing_pipeline,
]


def estimators(rng):
    """Every public scikit-learn estimator with drawn parameters."""
    from mizarlabs.model.pipeline import MizarFeatureUnion, MizarPipeline
    from mizarlabs.transformers import sample_weights as sw
    from mizarlabs.transformers.features import LocalMaxToCloseRatio, RollingZScoreTransformer, RollingZScoreTransformerFactory
    from mizarlabs.transformers.microstructural_features import first_generation as fg
    from mizarlabs.transformers.microstructural_features import second_generation as sg
    from mizarlabs.transformers.microstructural_features.vpin import VPIN
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    from mizarlabs.transformers.technical.factory import TAFactory
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor
    from mizarlabs.transformers.technical.volume import BuySellImbalance
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    from mizarlabs.transformers.utils import IdentityTransformer

    w, v = int(rng.integers(2, 20)), int(rng.integers(21, 60))
    windowed = [fg.RollMeasure, fg.RollImpact, fg.ParkinsonVolatility, fg.CorwinSchultzSpread, fg.BeckersParkinsonVolatility, sg.KyleLambda, sg.AmihudLambda,
                sg.HasbrouckLambda, VPIN, LocalMaxToCloseRatio]
    made = [lambda c=c: c(w) for c in windowed]
    return made + [
        lambda: RollingZScoreTransformer(w, purity._mid),
        lambda: RollingZScoreTransformerFactory.get_transformer("high_to_low_ratio", w),
        lambda: TAFactory().create_transformer("RSI", "close", kw_args={"timeperiod": w}),
        lambda: TrendScannerLabeling(look_forward_window=v, min_sample_length=w, step=2),
        IdentityTransformer,
        lambda: BuySellImbalance(w, v, "quote"),
        lambda: MizarFeatureUnion([("a", fg.RollMeasure(w)), ("b", VPIN(v))]),
        lambda: MizarPipeline([("a", fg.RollMeasure(w)), ("b", IdentityTransformer())]),
        lambda: BetSizingFromProbabilities(2, discretise=True, step_size=0.1),
        lambda: AverageUniqueness("t1"),
        lambda: sw.SampleWeightsByReturns("t1", "px"),
        lambda: sw.SampleWeightsByTimeDecay(0.5, "t1"),
        lambda: CUSUMFilter(float(w)),
        lambda: TripleBarrierMethodLabeling(w, 1.0, 2.0, volatility_window=v),
        lambda: MACDHistogramCrossOver(w, v, 5),
        lambda: MovingAverageCrossOver(w, v, "close"),
        lambda: MovingAverageCrossOverPredictor(w, v, "close"),
    ]


def cloned(case):
    """A clone has the parameters of its original, changed parameters too."""
    from sklearn.base import clone

    made = estimators(case.rng)
    o = made[case.idx // 10 % len(made)]()
    cls = type(o).__name__
    case.param(component=cls, copy="clone", state="new")
    try:
        z = clone(o)
        a, b = _params(o), _params(z)
        repr(o)
    except Exception as e:
        case.fail("copy-clone", f"class={cls}: {type(e).__name__} {e}")
        return
    case.check(type(z) is type(o) and a == b, "parameters", lambda: f"{cls}: the clone has the parameters {b}, not {a}")
    ints = [k for k, x in a.items() if type(x) is int]
    for k in ints:
        new = clone(o).set_params(**{k: a[k] + 1})
        case.check(_params(new) == {**a, k: a[k] + 1}, "parameters", lambda: f"{cls}: set_params({k}={a[k] + 1}) gives {_params(new)}")
        case.check(_params(o) == a, "parameters", f"{cls}: changing a clone changed the original")
    case.event("cloned")
    case.seen(cls, a)
    if not hasattr(o, "transform") or not ints or cls == "TrendScannerLabeling":
        return
    X = purity._with_inputs(case.rng, purity._frame(case.rng))
    outcome(lambda: o.transform(X))
    k = ints[0]
    want = outcome(lambda: type(o)(**{**a, **o.get_params(deep=False), k: a[k] + 1}).transform(X))
    for x in (clone(o), o):
        got = outcome(lambda: x.set_params(**{k: a[k] + 1}).transform(X))
        case.check(alike(want, got), "set", lambda: f"{cls}: with {k} set to {a[k] + 1} differs from a new object")


@prop(
    "C39", quick=720, thorough=24000, workers=6, env={"NUMBA_OPT": "0"},
    rule="a case is one configured component, copied (deepcopy, serialized and restored, cloned as a scikit-learn estimator) before or after use; the copy, the original and "
    "a new object are used in a drawn order on the same data; non-trivial: a result of a copy (distinct by component, kind of copy and result)",
    assumptions=["serialization with cloudpickle, as joblib uses it (generated indicator transformers hold local functions)", "a given random state for what draws at random"],
)
def c39(case):
    from sklearn.base import clone

    rng = case.rng
    if case.idx % 10 == 9:
        return cloned(case)
    maker = COMPONENTS[case.idx % len(COMPONENTS)]
    if maker is thing_ensemble and case.idx // 12 % 2:
        maker = purity.thing_feature
    for _ in range(30):
        t = maker(case)
        o = t.make()
        if o is not None and type(o).__module__.startswith("mizarlabs"):
            break
    else:
        raise StopCase("no component")
    cls = type(o).__name__
    first = outcome(lambda: t.use(t.make(), t.data))
    if rng.random() < 0.6:
        outcome(lambda: t.use(o, t.data if rng.random() < 0.5 else t.other))
        state = "used"
    else:
        state = "new"
    kinds = ["deepcopy", "serialized"]
    if hasattr(o, "get_params") and not t.name.startswith("bagging.p"):
        kinds.append("clone")
    kind = gen.pick(rng, *kinds)
    case.param(component=t.name, copy=kind, state=state)
    try:
        if kind == "deepcopy":
            z = copying.deepcopy(o)
        elif kind == "serialized":
            z = cloudpickle.loads(cloudpickle.dumps(o))
        else:
            z = clone(o)
    except Exception as e:
        case.fail("copy-" + kind, f"class={cls}: {state} {type(e).__name__} {e}")
        return
    if kind == "clone":
        a, b = _params(o), _params(z)
        case.check(a == b, "parameters", lambda: f"{t.name}: the clone has the parameters {b}, not {a}")
    other = outcome(lambda: t.use(t.make(), t.other))
    for _ in range(4):
        who = gen.pick(rng, "copy", "original", "copy on other data", "original on other data")
        x = z if who.startswith("copy") else o
        if who.endswith("data"):
            r, want = outcome(lambda: t.use(x, t.other)), other
        else:
            r, want = outcome(lambda: t.use(x, t.data)), first
        case.check(alike(want, r), "result", lambda: f"{t.name}: {kind} of a {state} object: the {who} gives {_short(r)}, a new object {_short(want)}")
        case.event("calls")
        if case.failures:
            return
    if kind == "clone" and type(z).__module__.startswith("mizarlabs"):
        ints = [k for k, v in o.get_params(deep=False).items() if type(v) is int]
        if ints:
            k = gen.pick(rng, *ints)
            v = int(getattr(o, k)) + gen.pick(rng, 1, 2, 5)
            if k == "min_sample_length":
                v = max(2, v - 6)
            new = outcome(lambda: t.use(type(o)(**{**o.get_params(deep=False), k: v}), t.data))
            for x in (z, o):
                x.set_params(**{k: v})
            case.check(alike(new, outcome(lambda: t.use(z, t.data))), "set", lambda: f"{t.name}: a clone with {k} set to {v} differs from a new object")
            case.check(alike(new, outcome(lambda: t.use(o, t.data))), "set", lambda: f"{t.name}: a used object with {k} set to {v} differs from a new object")
            case.event("parameters_set")
    if not failed(first):
        case.seen(t.name, kind, state, repr(first))
    case.event(kind)


def _params(o):
    return {k: v for k, v in o.get_params(deep=False).items() if isinstance(v, (int, float, str, bool, type(None)))}


# -- columns ---------------------------------------------------------------

@prop(
    "C40", quick=720, thorough=24000, workers=6,
    rule="a case is one configured transformer, strategy, indicator, labeler, weight or bet sizer and one data frame, used as it is, with its columns in another order, with additional or changed "
    "columns that it was not told about, and with each of its columns missing; non-trivial: a result (distinct by component and result)",
    assumptions=["VPIN rolls over all columns, which therefore have to be numbers"],
)
def c40(case):
    rng = case.rng
    maker = [purity.thing_feature, purity.thing_feature, purity.thing_feature, purity.thing_labels, purity.thing_weights, purity.thing_bets][case.idx // 6 % 6]
    for _ in range(30):
        t = maker(case)
        if isinstance(t.data, pd.DataFrame):
            break
    X = t.data
    case.param(component=t.name)
    first = outcome(lambda: t.use(t.make(), X))
    if failed(first):
        case.event("refused")
        raise StopCase("refused")
    obj = gen.pick(rng, t.make, lambda o=t.make(): o)

    def again(Y):
        return outcome(lambda: t.use(obj(), Y))

    order = list(rng.permutation(X.columns))
    r = again(X[order])
    case.check(alike(first, r), "order", lambda: f"{t.name}: columns in the order {order}: {_short(r)} instead of {_short(first)}")
    Y = X.copy()
    used = []
    optional = {t.config["side_column_name"]} if "side_column_name" in t.config and not t.config["metalabeling"] else set()
    for c in X.columns:
        r = again(X.drop(columns=c))
        if c in optional:  # long positions without it
            used.append(c)
            continue
        if failed(r):
            used.append(c)
            case.event("missing_refused")
            continue
        case.check(alike(first, r), "missing", lambda: f"{t.name}: without the column {c}: {_short(r)} instead of being refused or {_short(first)}")
        case.event("frames")
        if case.failures:
            return
    if used:
        c = gen.pick(rng, *used)
        names = gen.pick(rng, [c + "_2", "my_" + c], [c.upper(), c[:-1], c + "s"], ["remark", "x2"], ["volume2", "trend"], ["tmp", "index", "label2"], ["log_price", "returns"])
    else:
        names = ["remark", "x2"]
    Y = X.copy()
    names = [c for c in names if c not in Y.columns]
    for c in names:
        v = rng.normal(size=len(Y)) * 10.0 ** rng.integers(-3, 6)
        if rng.random() < 0.4:
            v[rng.random(len(Y)) < 0.4] = np.nan
        if rng.random() < 0.2:
            v[:] = np.nan
        Y.insert(0 if rng.random() < 0.5 else int(rng.integers(Y.shape[1] + 1)), c, v)
    r = again(Y)
    case.check(alike(first, r), "added", lambda: f"{t.name}: with the columns {names} added: {_short(r)} instead of {_short(first)}")
    case.event("frames", 2)
    spare = [c for c in X.columns if c not in used and X[c].dtype.kind == "f"]
    if spare:
        Z = X.copy()
        for c in spare:
            Z[c] = gen.pick(rng, Z[c].values[::-1].copy(), np.full(len(Z), np.nan), rng.normal(size=len(Z)), Z[c].values * 2)
        r = again(Z)
        case.check(alike(first, r), "changed", lambda: f"{t.name}: with other values of {spare}: {_short(r)} instead of {_short(first)}")
        case.event("frames")
    if len(X.columns) and not used:
        case.event("without_columns")
    case.seen(t.name, repr(first))


# -- random search draws ---------------------------------------------------

@prop(
    "C41", quick=120, thorough=6000, workers=4,
    rule="a case is one log-uniform distribution over drawn bounds; its distribution function and quantiles are compared with the closed form and hundreds of draws with the bounds and, by the "
    "Dvoretzky-Kiefer-Wolfowitz bound at 1e-9, with the distribution; non-trivial: a set of draws (distinct by bounds and draws)",
    assumptions=["bounds are positive"],
)
def c41(case):
    from mizarlabs.model.model_selection import log_uniform

    rng = case.rng
    default = rng.random() < 0.15
    a = 10.0 ** rng.uniform(-9, 6)
    b = a * 10.0 ** gen.pick(rng, rng.uniform(0.01, 1), rng.uniform(0.5, 6), rng.uniform(4, 10))
    if rng.random() < 0.3:
        a, b = int(rng.integers(1, 50)), int(rng.integers(51, 10**6))
    if default:
        a, b = 1, float(np.e)
        d = log_uniform()
    elif rng.random() < 0.2 and a < 2:
        b = float(np.e)
        d = log_uniform(a)
    else:
        d = log_uniform(a, b) if rng.random() < 0.5 else log_uniform(a=a, b=b)
    case.param(a=float(a), b=float(b))
    q = np.concatenate([[0.0, 1.0], rng.random(8)])
    x = a * (b / a) ** q
    case.check(np.allclose(d.cdf(x), q, atol=1e-9), "cdf", lambda: f"cdf({x}) is {d.cdf(x)}, not {q}")
    case.check(np.allclose(d.cdf([a / 2, a * 0.99, b * 1.01, b * 7]), [0, 0, 1, 1], atol=0), "cdf", "outside the bounds")
    p = d.ppf(q)
    case.check(np.allclose(p, x, rtol=1e-6), "quantiles", lambda: f"quantiles {p} of {q}, not {x}")
    n = 150
    seed = int(rng.integers(2**31))
    v = d.rvs(size=n, random_state=seed) if rng.random() < 0.7 else d.rvs(size=n, random_state=np.random.RandomState(seed))
    case.check(((v >= a * (1 - 1e-9)) & (v <= b * (1 + 1e-9))).all(), "bounds", lambda: f"draws {v.min()} to {v.max()}")
    u = np.sort(np.log(v / a) / np.log(b / a))
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    case.check(D <= np.sqrt(np.log(2e9) / (2 * n)), "distribution", f"distance {D} from log-uniform")
    w = d.rvs(size=n, random_state=seed)
    case.check(np.array_equal(v, w), "repeatable", "other draws with the same random state")
    case.event("draws", 2 * n)
    case.seen(a, b, v)


# -- units -----------------------------------------------------------------

LAWS = {  # powers of the price, base volume and quote volume factors
    "RollMeasure": (1, 0, 0), "RollImpact": (1, 0, -1), "KyleLambda": (1, -1, 0), "AmihudLambda": (0, 0, -1), "HasbrouckLambda": (0, 0, -0.5),
    "ExponentialWeightedMovingAverageDifference": (1, 0, 0),
}


def _units(case, k):
    """A component that knows about prices and volumes: (name, data, function of data and factors, powers of the result)."""
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

    rng = case.rng
    none = (0, 0, 0)
    if k == 0:
        t = purity.thing_labels(case)
        return t.name, t.data, lambda x, p: t.use(t.make(), x), none
    if k == 1:
        t = purity.thing_trend(case)
        return t.name, t.data, lambda x, p: t.use(t.make(), x), none
    if k == 2:
        n = int(rng.integers(2, 80))
        y = pd.Series(gen.prices(rng, n), index=gen.time_index(rng, n))
        thr = float(rng.uniform(0.1, 4)) * float(np.abs(np.diff(y.values)).mean() + 1e-6)
        return "CUSUMFilter", y, lambda x, p: CUSUMFilter(thr * p).transform(x), none
    if k == 3:
        from mizarlabs.transformers.sample_weights import SampleWeightsByReturns

        n = int(rng.integers(2, 50))
        ix = gen.time_index(rng, n)
        fr = pd.DataFrame({"event_end_time": ix[np.minimum(n - 1, np.arange(n) + rng.integers(0, 9, n))], "close": gen.prices(rng, n)}, index=ix)
        return "SampleWeightsByReturns", fr, lambda x, p: SampleWeightsByReturns().transform(x), none
    if k == 4:
        n = int(rng.integers(30, 60))
        y = pd.Series(100 * np.exp(np.cumsum(rng.normal(0, 0.03, n))), index=gen.time_index(rng, n))
        side = gen.pick(rng, "one_sided_positive", "one_sided_negative", "two_sided")
        m = int(rng.integers(5, 12))
        kw = dict(model=gen.pick(rng, "no_trend", "linear"), lags=gen.pick(rng, 1, 2), min_length=15, add_constant=True, phi=0.5)
        name, make = gen.pick(
            rng, ("ChuStinchcombeWhiteStatTest", lambda: ChuStinchcombeWhiteStatTest(side)), ("SupremumDickeyFullerChowStatTest", lambda: SupremumDickeyFullerChowStatTest(m)),
            ("SupremumAugmentedDickeyFullerStatTest", lambda: SupremumAugmentedDickeyFullerStatTest(**kw)))
        return name, y, lambda x, p: make().run(x), none
    while True:
        name, make, config, _ = purity.feature(rng, gen.pick(rng, "micro", "micro", "rolling", "technical"))
        if not name.startswith(("union", "TA", "BuySellImbalance")) and not (name.startswith("Exp") and make().normalised):
            break
    X = purity._with_inputs(rng, purity._frame(rng))
    m = gen.pick(rng, *purity._methods(make()))
    return f"{name}.{m}", X, lambda x, p: getattr(make(), m)(x), LAWS.get(name, none)


def _scaled(o, p, b, q):
    if isinstance(o, pd.Series):
        return o * p
    r = o.copy()
    for c in o.columns:
        if c.startswith("quote_asset"):
            r[c] = o[c] * q
        elif c.startswith("base_asset") or c == "volume":
            r[c] = o[c] * b
        elif c in ("open", "high", "low", "close", "px"):
            r[c] = o[c] * p
    return r


@prop(
    "C42", quick=720, thorough=30000, workers=6, env={"NUMBA_OPT": "0"},
    rule="a case is one component that uses prices or volumes and one set of data, in the drawn units and in units of money and of the asset that are powers of two apart (so that the "
    "arithmetic stays exact); the results are compared after dividing by the power of the factors that the definition implies; non-trivial: a result (distinct by component and result)",
    assumptions=["the buy-sell imbalance and the normalised moving average difference add one to what they divide by and TA-Lib indicators have absolute terms: they are left out"],
)
def c42(case):
    rng = case.rng
    name, data, run, (i, j, k) = _units(case, case.idx // 6 % 10)
    case.param(component=name)
    before = outcome(lambda: run(data, 1.0))
    for _ in range(2):
        low = -8 if "RSI" in name else -20  # TA-Lib's RSI takes changes below 1e-14 for none
        c, d = 2.0 ** int(rng.integers(low, 21)), 2.0 ** int(rng.integers(-8, 9))
        p, b, q = c / d, d, c
        x = _scaled(data, p, b, q)
        r = outcome(lambda: run(x, p))
        where = f"prices times {p}, base volumes times {b}, quote volumes times {q}"
        if failed(before) or failed(r):
            case.check(failed(before) == failed(r), "refused", lambda: f"{name}, {where}: {_short(r)} instead of {_short(before)}")
            continue
        f = p**i * b**j * q**k
        if f != 1:
            r = r / f
        case.check(nearly_alike(before, r), "units", lambda: f"{name}, {where}: {_short(r)} instead of {_short(before)}")
        case.event("unit_changes")
        if case.failures:
            return
    if not failed(before):
        case.seen(name, repr(before))
