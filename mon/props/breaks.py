"""C27-C29: structural break tests."""
import warnings

import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop

EPS = 2.3e-16


def _series(rng, n, positive=True):
    kind = gen.pick(rng, "walk", "walk", "bubble", "jump", "mean-reverting", "noise", "steps")
    if kind == "bubble" and n > 1000:
        kind = "walk"
    if kind == "walk":
        p = 100 * np.exp(np.cumsum(rng.normal(0, 0.02, n)))
    elif kind == "bubble":
        a, b = sorted(rng.integers(0, n + 1, 2))
        d = rng.normal(0, 0.01, n)
        d[a:b] += np.linspace(0.001, 0.03, b - a)
        p = 50 * np.exp(np.cumsum(d))
    elif kind == "jump":
        p = 20 + np.cumsum(np.where(rng.random(n) < 0.08, rng.normal(0, 2, n), rng.normal(0, 0.05, n)))
    elif kind == "mean-reverting":
        p = np.zeros(n)
        for i in range(1, n):
            p[i] = 0.6 * p[i - 1] + rng.normal()
        p = p + 30
    elif kind == "noise":
        p = rng.uniform(1, 9, n)
    else:
        p = 40 + np.cumsum(rng.integers(-2, 3, n)).astype(float)
    if positive:
        p = p - min(0.0, p.min() - 1.0)
    if rng.random() < 0.15:
        p = p * 10.0 ** rng.uniform(-8, 4)
        kind += "+scaled"
    index = gen.pick(rng, gen.time_index(rng, n), pd.RangeIndex(n))
    return pd.Series(p, index=index), kind


def tstats(X, y):
    """t-value of the first coefficient and its rounding-error bound in normal equations.

    None when there is no such value: a regressor that is zero throughout, or a perfect fit by zero.
    """
    if not X.any(axis=0).all() or not y.any():
        return None, 0.0
    scale = np.sqrt((X**2).sum(axis=0))
    Z = X / scale
    Q, R = np.linalg.qr(Z)
    if np.abs(np.diag(R)).min() < 1e-13:
        return np.nan, np.inf
    Ri = np.linalg.inv(R)
    beta = Ri @ (Q.T @ y)
    e = y - Z @ beta
    df = len(y) - X.shape[1]
    sse = float(e @ e)
    if sse <= 1e-18 * float(y @ y) or df <= 0:
        return np.nan, np.inf
    se = np.sqrt(sse / df * (Ri[0] @ Ri[0]))
    t = float(beta[0] / se)
    # the normal equations square the (unscaled) condition number
    err = 200 * EPS * np.linalg.cond(X) ** 2
    amplification = 1 + np.sqrt(float(y @ y) / sse)
    return t, err * (abs(t) + amplification)


def design(s, model, lags, const):
    """(positions, X with the tested column first, y)."""
    v = s.values.astype(float)
    n = len(v)
    if model in ("no_trend", "linear", "quadratic"):
        ls = list(range(1, lags + 1)) if isinstance(lags, int) else [int(x) for x in lags]
        d = np.full(n, np.nan)
        d[1:] = np.diff(v)
        pos = np.arange(max(ls) + 1, n)
        cols = [v[pos - 1]] + [d[pos - k] for k in ls]
        tr = np.arange(1, len(pos) + 1).astype(float)
        if model != "no_trend":
            cols.append(tr)
        if model == "quadratic":
            cols.append(tr**2)
        if const:
            cols.append(np.ones(len(pos)))
        return pos, np.column_stack(cols), d[pos]
    pos = np.arange(n)
    tr = np.arange(1, n + 1).astype(float)
    y = v if model == "sm_poly_1" else np.log(v)
    one = np.ones(n)
    if model in ("sm_poly_1", "sm_poly_2"):
        return pos, np.column_stack([tr**2, one, tr]), y
    return pos, np.column_stack([tr if model == "sm_exp" else np.log(tr), one]), y


def ref_sadf(s, model, lags, m, const, phi, only=None):
    """Per end point: (lowest, highest) value compatible with rounding; nan when undecidable (or not asked for)."""
    pos, X, y = design(s, model, lags, const)
    ends = range(m, len(pos))
    lo, hi, mid = [], [], []
    for e in ends:
        if only is not None and e - m not in only(len(ends)):
            lo.append(np.nan), hi.append(np.nan), mid.append(np.nan)
            continue
        a, b, c = -np.inf, -np.inf, -np.inf
        for st in range(0, e + 1 - m + 1):
            t, err = tstats(X[st: e + 1], y[st: e + 1])
            if t is None:
                continue  # left out
            if model.startswith("sm"):
                f = float(e - st) ** phi
                t, err = abs(t) / f, err / f
            if not np.isfinite(t) or err > 1e-2 * (abs(t) + 0.1):
                a = b = c = np.nan
                break
            a, b, c = max(a, t - err), max(b, t + err), max(c, t)
        lo.append(a), hi.append(b), mid.append(c)
    return pos[m:], np.array(lo), np.array(hi), np.array(mid)


@prop(
    "C27", quick=140, thorough=5000, workers=8,
    rule="a case is one series and one specification; every statistic is recomputed from QR regressions over every start point, with the "
    "rounding bound of normal equations for the window's condition number; then later data are altered and removed; non-trivial: every "
    "end point with a decidable reference (distinct by series and specification)",
    assumptions=["the minimum length exceeds the number of regressors", "nearly singular regressions and perfect fits are not decided (counted); exactly singular ones must be left out",
                 "end points whose regressions are too ill-conditioned to decide are skipped (counted)"],
)
def c27(case):
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest as T

    rng = case.rng
    model = gen.pick(rng, "no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power")
    lags = gen.pick(rng, 1, 2, 3, [1], [2], [1, 3], [3, 1], [2, 4])
    L = lags if isinstance(lags, int) else max(lags)
    const = bool(rng.random() < 0.5)
    if model.startswith("sm"):
        k = 3 if "poly" in model else 2
    else:
        k = 1 + (lags if isinstance(lags, int) else len(lags)) + const + ["no_trend", "linear", "quadratic"].index(model)
    big = rng.random() < 0.15
    m = int(rng.integers(130, 420)) if big else max(k + int(rng.integers(1, 10)), L + 1)
    n = int(m + L + 2 + rng.integers(1, 5 if big else 26))
    only = None
    if case.idx == 7:  # one window of more than a thousand bars
        m = int(rng.integers(1030, 1400))
        n = int(m + L + 2 + rng.integers(1, 4))
    elif not big and rng.random() < 0.04:  # long histories: a few end points
        n = int(m + L + 2 + rng.integers(280, 700))
        seed = int(rng.integers(2**31))
        only = lambda k: {0, k - 1, *np.random.default_rng(seed).integers(0, k, 6).tolist()}
    phi = float(gen.pick(rng, 0.0, 0.5, 1.0, round(float(rng.random()), 3)))
    s, kind = _series(rng, n)
    if rng.random() < 0.3:
        s = np.log(s) + 3 - min(0.0, float(np.log(s).min()) + 2)
    if rng.random() < 0.1:
        s = pd.Series(np.round(s.values * 7).astype(np.int64) + rng.integers(0, 5, n) + 1, index=s.index)
        s = s - min(0, int(s.min()) - 1)
    if rng.random() < 0.2:  # a stretch without any move
        at, length = int(rng.integers(0, n - 2)), int(rng.integers(2, m + 12))
        s.iloc[at: at + length] = s.iloc[at]
        kind += "+idle"
    case.param(model=model, lags=lags, min_length=m, n=n, constant=const, phi=phi, series=kind)
    before = s.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tester = T(model, lags, m, const, phi)
        out = tester.run(s)
    case.check(gen.same(before, s), "input-changed", "the series was modified")
    pos, lo, hi, mid = ref_sadf(s, model, lags, m, const, phi, only)
    if not case.check(out.index.equals(s.index[pos]), "index", lambda: f"{len(out)} values, expected {len(pos)}"):
        return
    got = out.values.astype(float)
    none = mid == -np.inf
    case.check(bool(np.isnan(got[none]).all()), "not-identified", lambda: f"{got[none]} where no regression is identified")
    case.event("end_points_without_statistic", int(none.sum()))
    ok = np.isfinite(mid)
    case.event("undecidable_end_points", int((~ok & ~none).sum()))
    case.event("statistics", int(ok.sum()))
    slack = 1e-8 * (1 + np.abs(mid))
    bad = ok & ~((got >= lo - slack) & (got <= hi + slack))
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        case.fail("statistic", f"{int(bad.sum())} of {int(ok.sum())} differ, first at end position {int(pos[i])}: got {got[i]!r}, expected {mid[i]!r} ({lo[i]}..{hi[i]})")
    case.event("assertions")
    if ok.any():
        case.seen(got)
    # no look-ahead
    cut = int(rng.integers(pos[0], n))
    alt = s.astype(float).copy()
    alt.iloc[cut + 1:] = rng.uniform(1, 200, n - cut - 1)
    for what, z in (("altered", alt), ("removed", s.iloc[: cut + 1])):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = T(model, lags, m, const, phi).run(z).reindex(out.index[pos <= cut]).values.astype(float)
        d = ok[pos <= cut]
        a, b = o[d], got[pos <= cut][d]
        tol = 2 * (hi - lo)[pos <= cut][d] + 1e-8 * (1 + np.abs(b))
        case.check(bool((np.abs(a - b) <= tol).all()), "look-ahead", lambda: f"{what} data after {cut}: " + gen.first_diff(a, b))
    r = rng.random()
    if r < 0.4:
        case.refuses("bad-phi", lambda: T(model, lags, m, const, float(gen.pick(rng, -0.01, 1.01, 2.0, -1.0))))
    elif r < 0.8:
        bad = gen.pick(rng, "unknown", "", "sm_poly_3", "sm", "No_trend", "sm_linear", None)
        case.refuses("bad-model", lambda: T(bad, lags, m, const, phi).run(s))


@prop(
    "C28", quick=550, thorough=24000, workers=6,
    rule="a case is one series and one minimum sample number; every t-value is recomputed by its definition; the series is then scaled; "
    "non-trivial: at least one candidate position (distinct by series)",
    assumptions=["minimum number of samples at least one", "perfect fits are not decided"],
)
def c28(case):
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest as T

    rng = case.rng
    m = int(gen.pick(rng, 1, 2, 3, 5, 20, int(rng.integers(1, 15))))
    n = int(2 * m + (rng.integers(1, 60) if rng.random() < 0.95 else rng.integers(200, 900)))
    n = gen.long_n(case, every=300, high=3000, huge=(6000, 7000)) or n
    s, kind = _series(rng, n, positive=rng.random() < 0.8)
    if rng.random() < 0.3:
        s = s - float(s.mean())
    if rng.random() < 0.1:
        s = pd.Series(rng.integers(-20, 20, n), index=s.index)
    elif rng.random() < 0.25:
        s = s.astype(float)
        s[rng.random(n) < gen.pick(rng, 0.0, 0.1, 0.4)] = 0.0
        if rng.random() < 0.6:
            s.iloc[n - 2] = 0.0
        kind += "+zeros"
    elif rng.random() < 0.2:  # a level far above its moves
        s = (s.astype(float) - float(s.mean())) 
        s = (s + float(s.abs().max()) * 10.0 ** rng.uniform(0.5, 6)) * 10.0 ** rng.uniform(-3, 1)
        kind += "+level"
    if rng.random() < 0.08:  # a worthless end: the last regressors are zero throughout
        s = s.astype(float)
        s.iloc[n - int(rng.integers(1, n)):] = 0.0
        kind += "+worthless"
    elif rng.random() < 0.05:
        s.iloc[:] = s.iloc[0]
        kind = "constant"
    case.param(min_samples=m, n=n, series=kind)
    before = s.copy()
    tester = T(m) if m != 20 or rng.random() < 0.5 else T()
    out = tester.run(s)
    case.check(gen.same(before, s), "input-changed", "the series was modified")
    v = s.values.astype(float)
    d, lag = np.diff(v), v[:-1]
    if not case.check(len(out) == n - 2 * m and list(out.index) == list(s.index[m: n - m]), "index", lambda: f"{len(out)} values, expected {n - 2 * m}"):
        return
    want, ok = np.full(n - 2 * m, np.nan), np.zeros(n - 2 * m, dtype=bool)
    none = ok.copy()
    for q, i in enumerate(range(m, n - m)):
        x = np.where(np.arange(n - 1) < i, 0.0, lag)
        xx = float(x @ x)
        if xx == 0 or not d.any():
            none[q] = True
            continue
        if xx < 1e-12 * float(v @ v) or n - 2 < 1:
            continue
        b = float(x @ d) / xx
        e = d - b * x
        sse = float(e @ e)
        if sse < 1e-14 * float(d @ d):
            continue
        want[q] = b / np.sqrt(sse / (n - 2) / xx)
        ok[q] = True
    got = out.values.astype(float)
    case.event("t_values", int(ok.sum()))
    case.event("positions_without_t_value", int(none.sum()))
    case.check(bool(np.isnan(got[none]).all()), "not-identified", lambda: f"{got[none]} where the coefficient is not identified")
    case.check(gen.close(got[ok], want[ok], 1e-6, 1e-8), "t-value", lambda: gen.first_diff(got[ok], want[ok], 1e-6, 1e-8))
    if ok.any():
        case.seen(got[ok])
    for f in (float(2.0 ** rng.integers(-12, 13)), float(rng.uniform(1e-3, 1e3))):
        g = T(m).run(s * f).values.astype(float)
        case.check(gen.close(g[ok], got[ok], 1e-6, 1e-8), "scale", lambda: f"times {f}: " + gen.first_diff(g[ok], got[ok], 1e-6, 1e-8))


@prop(
    "C29", quick=600, thorough=24000, workers=6,
    rule="a case is one series and one side; both columns are recomputed from every pair (n, t); later data are altered and removed; "
    "non-trivial: every series (distinct by series and side)",
    assumptions=["where several reference points attain the maximum up to rounding, the critical value of any of them is accepted, unless the departure is exactly zero"],
)
def c29(case):
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest as T

    rng = case.rng
    n = int(rng.integers(2, gen.pick(rng, 6, 30, 90))) if rng.random() < 0.97 else int(rng.integers(130, 420)) if rng.random() < 0.7 else int(rng.integers(1050, 1600))
    n = gen.long_n(case, every=300, high=2000, huge=(2000, 2400)) or n
    s, kind = _series(rng, n, positive=False)
    if rng.random() < 0.35:
        v = gen.pick(rng, rng.integers(-3, 4, n), np.cumsum(rng.integers(-1, 2, n)), np.arange(n)[::-1] * 2, np.arange(n) // 2)
        s = pd.Series(np.asarray(v) if rng.random() < 0.5 else np.asarray(v, dtype=float), index=s.index)
        kind = "integers"
    elif rng.random() < 0.3:
        s = np.log(s - min(0, float(s.min()) - 1))
    if rng.random() < 0.06:  # no move at first, or none at all
        s.iloc[: int(gen.pick(rng, rng.integers(2, n + 1), n))] = s.iloc[0]
        kind += "+still"
    elif s.iloc[0] == s.iloc[1]:
        s.iloc[0] = s.iloc[0] + 1
    side = gen.pick(rng, "one_sided_positive", "one_sided_negative", "two_sided")
    case.param(n=n, series=kind, side=side)
    before = s.copy()
    out = T(side).run(s)
    case.check(gen.same(before, s), "input-changed", "the series was modified")
    if not case.check(out.index.equals(s.index[1:]) and list(out.columns) == ["statistic", "critical_value"], "index", lambda: f"{out.shape}"):
        return
    v = s.values.astype(float)
    st, cv = out["statistic"].values.astype(float), out["critical_value"].values.astype(float)
    for t in range(2, n + 1) if n < 1700 else sorted({2, 3, n, *rng.integers(2, n + 1, 500).tolist()}):
        sig2 = float((np.diff(v[:t]) ** 2).sum()) / (t - 1)
        if sig2 == 0:
            case.check(not np.isfinite(st[t - 2]) and not st[t - 2] > 0 and np.isnan(cv[t - 2]), "no-variance", f"at {t}, without any change before: {st[t - 2]!r}, {cv[t - 2]!r}")
            case.event("bars_without_variance")
            continue
        nn = np.arange(1, t)
        d = v[t - 1] - v[: t - 1]
        d = {"one_sided_positive": d, "one_sided_negative": -d, "two_sided": np.abs(d)}[side]
        S = d / np.sqrt(sig2 * (t - nn))
        mx = S.max()
        tol = 1e-9 * (1 + abs(mx))
        case.check(abs(st[t - 2] - mx) <= tol, "statistic", f"at {t}: got {st[t - 2]!r}, expected {mx!r}")
        cand = [int(np.flatnonzero(d == 0)[0])] if mx == 0 else list(np.flatnonzero(S >= mx - tol))
        crit = np.sqrt(4.6 + np.log(t - nn[cand]))
        case.check(bool((np.abs(crit - cv[t - 2]) <= 1e-9).any()), "critical-value", f"at {t}: got {cv[t - 2]!r}, expected {crit[0]!r}")
        if mx == 0:
            case.event("exact_ties")
    case.event("statistics", n - 1)
    case.seen(side, v)
    if n > 2:
        cut = int(rng.integers(2, n))
        alt = s.astype(float).copy()
        alt.iloc[cut:] = rng.normal(0, 100, n - cut)
        for what, z in (("altered", alt), ("removed", s.iloc[:cut])):
            o = T(side).run(z)
            case.check(gen.close(o.values[: cut - 1], out.values[: cut - 1], 1e-9, 1e-12), "look-ahead", f"{what} data from {cut} on change earlier values")
    if rng.random() < 0.3:
        case.refuses("bad-side", lambda: T(gen.pick(rng, "two-sided", "", "both", "one_sided", "ONE_SIDED_POSITIVE", None, 1)))
