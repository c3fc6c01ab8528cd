"""C08-C09: trend-scanning labels."""
import numpy as np
import pandas as pd

from mon import gen
from mon.core import StopCase, prop

NEAR = 1e-6


def window_t(seg):
    """Slope t-value of a straight line through seg, None when it is rounding noise."""
    n = len(seg)
    x = np.arange(n) - (n - 1) / 2.0
    mean = seg.mean()
    d = seg - mean
    sxx = (x * x).sum()
    slope = (x * d).sum() / sxx
    res = d - slope * x
    sse = (res * res).sum()
    noise = (1e-9 * (np.abs(seg).max() + 1e-300)) ** 2 * n
    if sse <= 1e4 * noise:
        return None
    return slope / np.sqrt(sse / (n - 2) / sxx)


def scan(y, i, L, m, step):
    """All candidate windows (length, t) of the event at position i; None: no full window."""
    if i + L > len(y):
        return None
    return [(w, window_t(y[i : i + w])) for w in range(m, L, step)]


class Ref:
    def __init__(self, y, L, m, step):
        self.y, self.L, self.m, self.step = y, L, m, step
        self.memo = {}

    def __call__(self, i):
        if i not in self.memo and np.isnan(self.y[i : i + self.L]).any() and i + self.L <= len(self.y):
            ts = [t for w, t in scan(self.y, i, self.L, self.m, self.step) if not np.isnan(self.y[i : i + w]).any()]
            best = 0 if None in ts else max([abs(t) for t in ts], default=1)
            clear = best >= 1e-5 and sum(abs(t) >= best * (1 - NEAR) for t in ts) <= 1
            self.memo[i] = ("gap" if clear else "degenerate", None, None)
        if i not in self.memo:
            c = scan(self.y, i, self.L, self.m, self.step)
            if c is None:
                self.memo[i] = ("missing", None, None)
            elif any(t is None for _, t in c):
                self.memo[i] = ("degenerate", None, None)
            else:
                best = max(abs(t) for _, t in c)
                near = [(w, t) for w, t in c if abs(t) >= best * (1 - NEAR)]
                state = "sure" if len(near) == 1 else "tie"
                # a slope of zero up to rounding has no decidable sign
                self.memo[i] = ("degenerate", None, None) if best < 1e-5 else (state, near, best)
        return self.memo[i]


def draw_series(rng, n, degenerate=False):
    index = gen.time_index(rng, n)
    kind = gen.pick(rng, "walk", "vol", "trend", "jump", "dyadic", "plateau", "tiny", "huge")
    p = gen.prices(rng, n, "walk" if n > 1000 else kind)
    if degenerate or rng.random() < 0.2:
        for _ in range(int(rng.integers(1, 4))):
            a = int(rng.integers(0, n))
            b = int(min(n, a + rng.integers(3, 40)))
            if rng.random() < 0.5:
                p[a:b] = p[a]
            else:
                p[a:b] = p[a] + np.arange(b - a) * float(rng.choice([0.25, 1.0, 0.1]))
        kind += "+flat"
    return pd.Series(p, index=index, name="close"), kind


def draw_cfg(rng):
    m = int(rng.integers(3, 9))
    L = m + int(gen.pick(rng, 1, 2, int(rng.integers(1, 8)), int(rng.integers(1, 25))))
    step = int(gen.pick(rng, 1, 1, 2, 3, int(rng.integers(1, 9))))
    return L, m, step


def as_events(rng, index, pos):
    ts = index[pos]
    return gen.pick(rng, ts.values, list(ts), ts)


def label(case, y, L, m, step, events=None):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

    before = y.copy()
    lab = TrendScannerLabeling(events, look_forward_window=L, min_sample_length=m, step=step)
    out = lab.fit_transform(y) if case.rng.random() < 0.3 else lab.transform(y)
    case.check(gen.same(before, y), "input-changed", "labeling changed its input")
    case.event("scans")
    return out


@prop(
    "C08", quick=900, thorough=20000, workers=6,
    rule="a case is one price series, window configuration and event set; every event is compared with closed-form line fits "
    "over all candidate windows; non-trivial: an event with a unique best window (distinct by prices, events and configuration)",
    assumptions=["minimum sample length of at least three bars", "unique, increasing, tz-naive bar times",
                 "windows that are flat or linear up to rounding have no decidable t-value: only that they are labelled is checked",
                 "windows whose t-values differ by less than one millionth are accepted as ties"],
)
def c08(case):
    rng = case.rng
    n = int(rng.integers(2, gen.pick(rng, 20, 60, 120)))
    long = gen.long_n(case, every=150, high=2500)
    n = long or n
    y, kind = draw_series(rng, n, degenerate=case.idx % 5 == 0)
    L, m, step = draw_cfg(rng)
    if long:  # windows of hundreds of bars
        L = m + int(rng.integers(100, 700))
    use = rng.random() < 0.6 or bool(long)
    pos = np.arange(n)
    if use:
        pos = rng.permutation(n)[: int(rng.integers(1, 25 if long else n + 1))]
        if rng.random() < 0.6:
            pos = np.sort(pos)
    events = as_events(rng, y.index, pos) if use else None
    case.param(n=n, prices=kind, L=L, m=m, step=step, events=len(pos) if use else "all", kind=type(events).__name__)
    out = label(case, y, L, m, step, events)
    if not case.check(
        len(out) == len(pos) and (pd.DatetimeIndex(out.index) == y.index[pos]).all(), "rows", "one row per event, in the order asked for"
    ):
        return
    ref = Ref(y.values, L, m, step)
    end = out["event_end_time"]
    seen = False
    for k, i in enumerate(pos):
        state, near, best = ref(i)
        case.event("event_" + state)
        t, r, lb = (float(out[c].iloc[k]) for c in ("t_value", "return", "label"))
        if state == "missing":
            case.check(
                pd.isna(end.iloc[k]) and np.isnan(t) and np.isnan(r) and np.isnan(lb), "value-without-window",
                lambda: f"event {i} of {n} has no full window of {L} bars but {out.iloc[k].to_dict()}",
            )
            continue
        if not case.check(pd.notna(end.iloc[k]) and not np.isnan(t), "window-without-value", f"event {i} of {n} (L={L}, {state}) has no value"):
            continue
        j = y.index.get_indexer([pd.Timestamp(end.iloc[k])])[0]
        w = j - i + 1
        case.check(
            j >= 0 and m <= w < L and (w - m) % step == 0, "not-a-candidate",
            lambda: f"event {i} ends after {w} bars, not one of the windows {m}, {m + step}.. below {L}",
        )
        if j >= 0:
            want = y.values[j] / y.values[i] - 1
            case.check(abs(r - want) <= 1e-9 * max(1e-3, abs(want)), "return", lambda: f"event {i}: return {r}, expected {want}")
        case.check(lb == np.sign(t), "label", lambda: f"event {i}: label {lb} for t-value {t}")
        if state == "degenerate":
            continue
        seen = True
        okw = [x for x in near if x[0] == w]
        if case.check(bool(okw), "window", lambda: f"event {i}: window of {w} bars, expected {near} (L={L} m={m} step={step})"):
            want = okw[0][1]
            case.check(
                abs(t - want) <= 1e-4 * abs(want) + 1e-9, "t-value", lambda: f"event {i}: t-value {t}, expected {want} for window {w}"
            )
    if seen:
        case.seen(y.values, pos, L, m, step)


def compare(case, kind, what, full, pfull, part, ppart, ref, offset=0, tfactor=1.0):
    """Rows of two outputs for the same events agree, positions in part shifted by offset."""
    ia = {p: k for k, p in enumerate(pfull)}
    for k, p in enumerate(ppart):
        a, b = full.iloc[ia[p]], part.iloc[k]
        state = ref(p)[0]
        if state in ("missing", "degenerate", "tie"):
            case.event("skipped_" + state)
            if state == "missing":
                case.check(pd.isna(b["event_end_time"]) and np.isnan(float(b["t_value"])), kind, f"{what}: event {p} has a value without a window")
            continue
        case.event("events_compared")
        if state == "gap":  # a missing price: whatever is reported depends on the window only
            ok = pd.isna(b["event_end_time"]) == pd.isna(a["event_end_time"]) and gen.close(
                b.drop("event_end_time").values.astype(float), a.drop("event_end_time").values.astype(float), 1e-5, 1e-9)
            ok = ok and (pd.isna(b["event_end_time"]) or pd.Timestamp(a["event_end_time"]) == pd.Timestamp(b["event_end_time"]))
            case.event("windows_with_gaps")
            if not case.check(ok, kind, lambda: f"{what}: event {p} is {b.to_dict()}, was {a.to_dict()}"):
                return
            continue
        ok = pd.notna(b["event_end_time"]) and pd.Timestamp(a["event_end_time"]) == pd.Timestamp(b["event_end_time"])
        for c, tol in (("t_value", 1e-5), ("return", 1e-9)):
            ok = ok and abs(float(a[c]) - float(b[c])) <= tol * max(1e-4, abs(float(a[c])))
        ok = ok and float(a["label"]) == float(b["label"])
        if not case.check(ok, kind, lambda: f"{what}: event {p} is {b.to_dict()}, was {a.to_dict()}"):
            return


@prop(
    "C09", quick=250, thorough=8000, workers=6,
    rule="a case labels one series as a whole and again for event subsets, without its first bars, with altered and appended "
    "bars, rescaled, and with one labeler used for several series; non-trivial: an event compared (distinct by prices and configuration)",
    assumptions=["minimum sample length of at least three bars", "events with flat or linear windows or with (near) ties are not compared"],
)
def c09(case):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

    rng = case.rng
    L, m, step = draw_cfg(rng)
    n = L + int(rng.integers(2, 60))
    y, kind = draw_series(rng, n)
    if rng.random() < 0.3:
        y.iloc[rng.integers(0, n, int(rng.integers(1, 4)))] = np.nan
        kind += "+gaps"
    ref = Ref(y.values, L, m, step)
    allpos = np.arange(n)
    case.param(n=n, prices=kind, L=L, m=m, step=step)
    full = label(case, y, L, m, step)
    before = case.events.get("events_compared", 0)

    pos = rng.permutation(n)[: int(rng.integers(1, n + 1))]
    sub = label(case, y, L, m, step, as_events(rng, y.index, pos))
    if case.check(len(sub) == len(pos) and (pd.DatetimeIndex(sub.index) == y.index[pos]).all(), "subset-rows", "rows are not the events"):
        compare(case, "subset", "subset of events", full, allpos, sub, pos, ref)

    k = int(rng.integers(1, n))
    part = label(case, y.iloc[k:], L, m, step)
    compare(case, "dropped-past", f"without the first {k} bars", full, allpos, part, allpos[k:], ref)

    c = int(rng.integers(L, n + 1))
    z = y.copy()
    z.iloc[c:] = gen.prices(rng, n - c) * float(rng.choice([1e-3, 1, 50]))
    part = label(case, z, L, m, step)
    compare(case, "altered-future", f"other prices from bar {c}", full, allpos, part, allpos[: c - L + 1], ref)
    part = label(case, y.iloc[:c], L, m, step)
    compare(case, "cut", f"cut at bar {c}", full, allpos, part, allpos[: c - L + 1], ref)
    z = y.copy()
    z.iloc[:k] = gen.prices(rng, k)
    part = label(case, z, L, m, step)
    compare(case, "altered-past", f"other prices before bar {k}", full, allpos, part.iloc[k:], allpos[k:], ref)

    f = float(gen.pick(rng, 0.5, 4.0, 1000.0, 1e-3, 3.7))
    part = label(case, y * f, L, m, step)
    compare(case, "rescaled", f"prices times {f}", full, allpos, part, allpos, ref)

    # one labeler, several series of different lengths and times
    n2 = L + int(rng.integers(0, 40))
    y2, _ = draw_series(rng, n2)
    lab = TrendScannerLabeling(look_forward_window=L, min_sample_length=m, step=step)
    near = y.copy()  # the same bars and end points, other prices in between
    a = int(rng.integers(1, n - 1))
    b = int(rng.integers(a, n - 1)) + 1
    near.iloc[a:b] *= 1 + 0.1 * rng.random(b - a)
    series = [y, y2, y.iloc[k:], y, near, y]
    if rng.random() < 0.5:
        series = [y, near, y]
    for q, s in enumerate(series):
        out = lab.transform(s)
        if not case.check(len(out) == len(s) and (pd.DatetimeIndex(out.index) == s.index).all(), "reuse-rows", f"use {q} of one labeler gives rows for other bars"):
            break
        fresh = label(case, s, L, m, step)
        case.check(gen.close(out["t_value"].values.astype(float), fresh["t_value"].values.astype(float), 1e-4, 1e-7)
                   if all(Ref(s.values, L, m, step)(i)[0] in ("sure", "missing", "gap") for i in range(len(s))) else True,
                   "reuse", f"use {q} of one labeler differs from a new labeler")
        case.event("reuses")
    if case.events.get("events_compared", 0) > before:
        case.seen(y.values, L, m, step, k, c)
