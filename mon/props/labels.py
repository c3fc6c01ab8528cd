"""C04-C07: triple-barrier labeling and daily volatility."""
import numpy as np
import pandas as pd

from mon import gen
from mon.core import prop

DAY = 86_400_000_000_000
EDGE = 1e-9


def ref_daily_vol(t, close, span):
    """Daily volatility per bar, NaN where there is none (O(n^2) definition)."""
    n = len(t)
    alpha = 2.0 / (span + 1.0)
    out = np.full(n, np.nan)
    if span == 1:  # only the last return has a weight: no deviation
        return out
    if n > 1000 and not np.isnan(close).any():
        return _long_daily_vol(t, close, alpha)
    rets = []
    for i in range(n):
        older = np.flatnonzero(t < t[i] - DAY)
        if not len(older):
            continue
        rets.append(close[i] / close[older[-1]] - 1)
        m = len(rets)
        if m < 2:
            continue
        x = np.asarray(rets)
        w = (1 - alpha) ** np.arange(m - 1, -1, -1.0)
        if np.isnan(x).any():  # missing prices: the other returns keep their age
            w, x = w[~np.isnan(x)], x[~np.isnan(x)]
            if len(x) < 2:
                continue
        sw = w.sum()
        mean = (w * x).sum() / sw
        var = (w * (x - mean) ** 2).sum() / sw
        out[i] = np.sqrt(var * sw**2 / (sw**2 - (w**2).sum()))
    return out


def _long_daily_vol(t, close, alpha):
    """The same deviation, its weighted sums carried from bar to bar."""
    out = np.full(len(t), np.nan)
    older = np.searchsorted(t, t - DAY) - 1
    has = np.flatnonzero(older >= 0)
    ret = close[has] / close[older[has]] - 1
    sw = sw2 = mean = m2 = 0.0
    for k, (i, x) in enumerate(zip(has, ret)):
        sw, sw2, m2 = sw * (1 - alpha), sw2 * (1 - alpha) ** 2, m2 * (1 - alpha)
        sw, sw2 = sw + 1.0, sw2 + 1.0
        old, mean = mean, mean + (x - mean) / sw
        m2 += (x - old) * (x - mean)
        if k:
            out[i] = np.sqrt(max(0.0, m2 / sw) * sw**2 / (sw**2 - sw2))
    return out


def draw(case, max_n=90, adjusted=None, huge=(33000, 36000)):
    """Draws a price frame, sides and a labeler configuration."""
    rng = case.rng
    n = int(rng.integers(3, gen.pick(rng, 12, 40, max_n)))
    exact = rng.random() < 0.3
    vol_adj = (rng.random() < 0.55) if adjusted is None else adjusted
    if vol_adj:
        n = max(n, int(rng.integers(8, max_n)))
    n = gen.long_n(case, every=150, high=2600, huge=huge) or n
    index = gen.day_index(rng, n) if vol_adj else gen.time_index(rng, n)
    if exact and not vol_adj:
        close = 2.0 ** np.cumsum(rng.integers(-1, 2, n)).clip(-6, 6) * 16
        factors = [0.0, 0.25, 0.5, 0.75, 1.0, 2.0, 3.0]
        pt, sl = float(rng.choice(factors)), float(rng.choice(factors))
    else:
        close = gen.prices(rng, n, "walk" if n > 1000 else "calm" if rng.random() < 0.12 else None)
        if vol_adj:
            pt, sl = (float(rng.choice([0.0, 0.3, 1.0, 2.5])) + float(rng.random() * 0.1) * (rng.random() < 0.5) for _ in range(2))
        else:
            scale = float(rng.choice([0.005, 0.02, 0.2]))
            pt, sl = (0.0 if rng.random() < 0.2 else float(rng.random() * scale) for _ in range(2))
    if vol_adj and rng.random() < 0.12:  # nothing moves at first: no volatility at all
        m = int(rng.integers(n // 3, n))
        close[:m] = close[m - 1]
        case.event("flat_starts")
    exact = exact and not vol_adj
    meta = rng.random() < 0.45
    side_kind = gen.pick(rng, "mixed", "long", "short", "withzero", "mixed", "sized") if meta else gen.pick(rng, "none", "none", "none", "mixed")
    side_col = gen.pick(rng, "side", "side", "position") if meta or side_kind != "none" else "side"
    close_col = gen.pick(rng, "close", "close", "px")
    side = None
    if side_kind != "none":
        side = {
            "sized": rng.choice([-1, -0.5, 0.25, 1], n), "mixed": rng.choice([-1, 1], n), "long": np.ones(n, dtype=int),
            "short": -np.ones(n, dtype=int), "withzero": rng.choice([-1, 0, 1], n),
        }[side_kind].astype(float if side_kind == "sized" else np.int64)
    horizon = int(gen.pick(rng, 1, 2, int(rng.integers(1, 12)), int(rng.integers(1, n + 2))))
    if n > 1000:  # horizons of hundreds of bars, barriers far away
        horizon = int(gen.pick(rng, int(rng.integers(2, 40)), int(rng.integers(257, 900))))
        pt, sl = (float(v * gen.pick(rng, 1, 5, 12)) for v in (pt, sl))
    window = int(gen.pick(rng, 2, 5, 20, 100))
    expl = rng.random() < 0.4
    cols = {close_col: close}
    if side is not None:
        cols[side_col] = side
    if rng.random() < 0.3:
        cols["other"] = rng.normal(size=n)
    y = pd.DataFrame(cols, index=index)
    args = dict(
        num_expiration_bars=horizon, profit_taking_factor=pt, stop_loss_factor=sl, metalabeling=bool(meta),
        close_column_name=close_col, side_column_name=side_col, volatility_window=window,
        volatility_adjusted_horizontal_barriers=bool(vol_adj), expiration_label=bool(expl),
    )
    case.param(n=n, exact=exact, side=side_kind, **{k: v for k, v in args.items()})
    return y, args, side, exact


def ref_labels(y, args, side, exact, vol=None):
    """Reference: end position, touch kind, return, label and whether it is decidable."""
    t = y.index.asi8
    close = y[args["close_column_name"]].values.astype(float)
    n = len(t)
    if vol is None:
        vol = (
            ref_daily_vol(t, close, args["volatility_window"])
            if args["volatility_adjusted_horizontal_barriers"] else np.ones(n)
        )
    s = np.ones(n) if side is None else side.astype(float)
    N = args["num_expiration_bars"]
    res = []
    for i in range(n):
        r = dict(end=None, touch=None, sure=True, ret=np.nan, label=np.nan, vol=vol[i])
        res.append(r)
        if np.isnan(vol[i]):
            continue
        exp = i + N if i + N < n else None
        stop = exp if exp is not None else n - 1
        up = args["profit_taking_factor"] * vol[i] if args["profit_taking_factor"] > 0 else np.inf
        lo = -args["stop_loss_factor"] * vol[i] if args["stop_loss_factor"] > 0 else -np.inf
        first = i
        if n > 1000:  # to the first bar that touches a barrier, or nearly
            x = (close[i:stop] / close[i] - 1) * s[i]
            hit = np.flatnonzero((x > up - 1e-6 * abs(up)) | (x < lo + 1e-6 * abs(lo)))
            first = i + hit[0] if len(hit) else stop
        for j in range(first, stop):
            x = (close[j] / close[i] - 1) * s[i]
            if not exact and vol[i] != 0 and min(abs(x - up), abs(x - lo)) < EDGE * max(1e-3, abs(x)):
                r["sure"] = False
            if x > up:
                r["end"], r["touch"] = j, "profit"
                break
            if x < lo:
                r["end"], r["touch"] = j, "stop"
                break
        if r["end"] is None:
            r["end"] = exp
        if r["end"] is not None:
            raw = close[r["end"]] / close[i] - 1
            if args["metalabeling"]:
                raw = raw * s[i]
                r["label"] = 1.0 if raw > 0 else 0.0 if raw < 0 else np.nan
            else:
                r["label"] = float(np.sign(raw))
            r["ret"] = raw
            if args["expiration_label"] and r["touch"] is None:
                r["label"] = 0.0
    return res


def run_labeler(case, y, args):
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling

    before = y.copy(deep=True)
    lab = TripleBarrierMethodLabeling(**args)
    out = lab.fit_transform(y) if case.rng.random() < 0.5 else lab.transform(y)
    case.check(gen.same(before, y), "input-changed", "labeling changed its input")
    case.event("labelings")
    return out


def _ends(out, index):
    e = out["event_end_time"]
    pos = np.where(e.isna(), -1, index.get_indexer(pd.DatetimeIndex(e.values)))
    stray = e.notna().values & (pos < 0)
    return pos, stray


@prop(
    "C04", quick=900, thorough=25000, workers=6,
    rule="a case is one price history and labeler configuration; every event's end time is compared with a bar-by-bar "
    "search for the first touch; non-trivial: at least one horizontal touch or expiry decided (distinct by prices, times and configuration)",
    assumptions=["bar times are unique, increasing, tz-naive, with millisecond resolution and after 1970",
                 "events whose return is within 1e-9 of a barrier without being exactly representable are skipped"],
)
def c04(case):
    y, args, side, exact = draw(case)
    out = run_labeler(case, y, args)
    ref = ref_labels(y, args, side, exact)
    if not case.check(out.index.equals(y.index), "rows", "output rows are not the input bars"):
        return
    pos, stray = _ends(out, y.index)
    case.check(not stray.any(), "end-not-a-bar", lambda: f"end time {out['event_end_time'][stray].iloc[0]} is no bar")
    dv = out["daily_vol"].values.astype(float)
    decided = 0
    for i, r in enumerate(ref):
        if not r["sure"]:
            case.event("skipped_knife_edge")
            continue
        want = -1 if r["end"] is None else r["end"]
        decided += want >= 0
        case.event("touch_" + str(r["touch"] or ("expired" if want >= 0 else "open")))
        case.check(
            pos[i] == want, "end-time",
            lambda: f"event {i}: ends at bar {pos[i]}, expected {want} ({r['touch']}), horizon {args['num_expiration_bars']}",
        )
        if np.isnan(r["vol"]):
            case.check(
                np.isnan(dv[i]) and np.isnan(out["return"].iloc[i]) and np.isnan(out["label"].iloc[i]),
                "no-volatility", f"event {i} has no volatility estimate but a value",
            )
    if decided:
        case.seen(y.values, y.index.asi8, sorted(args.items()))


@prop(
    "C05", quick=900, thorough=25000, workers=6,
    rule="a case is one price history and labeler configuration; return and label of every event are recomputed from "
    "the observed end time; non-trivial: at least one event with an end time (distinct by prices, times and configuration)",
    assumptions=["bar times are unique, increasing, tz-naive, with millisecond resolution and after 1970"],
)
def c05(case):
    y, args, side, exact = draw(case)
    out = run_labeler(case, y, args)
    if not case.check(out.index.equals(y.index), "rows", "output rows are not the input bars"):
        return
    ref = ref_labels(y, args, side, exact)
    close = y[args["close_column_name"]].values
    pos, stray = _ends(out, y.index)
    case.check(not stray.any(), "end-not-a-bar", "an end time is no bar")
    ret, label = out["return"].values.astype(float), out["label"].values.astype(float)
    ended = 0
    for i in range(len(y)):
        if pos[i] < 0:
            case.event("events_without_end")
            case.check(np.isnan(ret[i]) and np.isnan(label[i]), "value-without-end", f"event {i} has no end but return {ret[i]}, label {label[i]}")
            continue
        ended += 1
        want = close[pos[i]] / close[i] - 1
        if args["metalabeling"]:
            want = want * side[i]
        case.check(
            abs(ret[i] - want) <= 1e-9 * max(1e-3, abs(want)) + 1e-13, "return",
            lambda: f"event {i}: return {ret[i]}, expected {want}",
        )
        sgn = 0.0 if abs(want) < 1e-13 and close[pos[i]] != close[i] else np.sign(want)
        if args["metalabeling"]:
            wl = 1.0 if sgn > 0 else 0.0 if sgn < 0 else np.nan
        else:
            wl = float(sgn)
        r = ref[i]
        if args["expiration_label"]:
            if not r["sure"]:
                continue
            if r["touch"] is None:
                wl = 0.0
                case.event("expiry_labels")
        case.event(f"label_{wl}")
        case.check(
            (np.isnan(wl) and np.isnan(label[i])) or wl == label[i], "label",
            lambda: f"event {i}: label {label[i]}, expected {wl} (return {want}, touch {r['touch']})",
        )
    if ended:
        case.seen(y.values, y.index.asi8, sorted(args.items()))


@prop(
    "C06", quick=700, thorough=20000, workers=6,
    rule="a case is one price history and span; every bar's volatility is compared with the weighted-sum definition, and "
    "with the value on a truncated and on an altered continuation; non-trivial: at least two estimates (distinct by prices, times and span)",
    assumptions=["bar times are unique, increasing and tz-naive"],
)
def c06(case):
    from mizarlabs.transformers.targets.labeling import get_daily_vol

    rng = case.rng
    n = int(rng.integers(2, 140))
    if case.idx % 12 == 0:
        b = gen.real_bars()
        s = int(rng.integers(0, max(1, len(b) - n)))
        close = pd.Series(b["close"].values[s : s + n].astype(float), index=b.index[s : s + n])
        n = len(close)
    else:
        n = gen.long_n(case, huge=(33000, 70000)) or n
        index = gen.day_index(rng, n) if rng.random() < 0.85 else gen.time_index(rng, n)
        close = pd.Series(gen.prices(rng, n, "walk" if n > 1000 else None), index=index)
    span = int(gen.pick(rng, 2, 3, 10, 50, 100, int(rng.integers(1, 300))))
    span = 1 if rng.random() < 0.02 else span
    default = rng.random() < 0.1
    gaps = rng.random() < 0.12 and n < 1000
    if gaps:
        close.iloc[rng.integers(0, n, int(rng.integers(1, 5)))] = np.nan
        case.event("missing_prices")
    case.param(n=n, span=100 if default else span)
    before = close.copy()
    vol = get_daily_vol(close) if default else get_daily_vol(close, span)
    span = 100 if default else span
    case.check(gen.same(before, close), "input-changed", "input changed")
    case.check(vol.index.is_unique and vol.index.isin(close.index).all(), "rows", "estimates for times that are no bars")
    got = vol.reindex(close.index).values
    want = ref_daily_vol(close.index.asi8, close.values, span)
    scale = 1e-9
    if gaps:  # with one return there is no deviation, or none up to rounding
        want = np.where(np.isnan(want) & (np.abs(got) < 1e-12), got, want)
    case.check(
        np.array_equal(np.isnan(got), np.isnan(want)), "estimate-where",
        lambda: f"estimates at {np.flatnonzero(~np.isnan(got))[:5]}.., expected at {np.flatnonzero(~np.isnan(want))[:5]}..",
    )
    case.check(gen.close(got, want, rtol=1e-6, atol=scale), "value", lambda: gen.first_diff(got, want, 1e-6, scale))
    case.event("estimates", int((~np.isnan(want)).sum()))
    if n > 2:
        m = int(rng.integers(1, n))
        part = get_daily_vol(close.iloc[:m], span).reindex(close.index[:m]).values
        case.check(gen.close(part, got[:m], 1e-7, 1e-11), "prefix", lambda: f"cut at {m}: " + gen.first_diff(part, got[:m], 1e-7, 1e-11))
        alt = close.copy()
        alt.iloc[m:] = gen.prices(rng, n - m)
        other = get_daily_vol(alt, span).reindex(close.index).values[:m]
        case.check(gen.close(other, got[:m], 1e-7, 1e-11), "altered-future", lambda: f"altered from {m}: " + gen.first_diff(other, got[:m], 1e-7, 1e-11))
        case.event("continuations", 2)
    if (~np.isnan(want)).sum() > 1:
        case.seen(close.values, close.index.asi8, span)


def _decided_equal(case, kind, a, b, upto, what):
    """Rows 0..upto-1 of two labelings agree."""
    for col in ("event_end_time", "daily_vol", "return", "label"):
        if col == "daily_vol" and what.endswith("dropped"):
            continue
        x, z = a[col].iloc[:upto], b[col].iloc[:upto]
        if col == "event_end_time":
            ok = ((x.values == z.values) | (x.isna().values & z.isna().values))
        else:
            ok = np.isclose(x.values.astype(float), z.values.astype(float), rtol=1e-9, atol=1e-13, equal_nan=True)
        if not case.check(ok.all(), kind, lambda: f"{what}: {col} of event {np.flatnonzero(~ok)[0]} is {x.iloc[np.flatnonzero(~ok)[0]]} / {z.iloc[np.flatnonzero(~ok)[0]]}"):
            return


@prop(
    "C07", quick=500, thorough=15000, workers=6,
    rule="a case is one price history labelled as a whole, cut after several bars, with an altered continuation and with "
    "its first bars removed; non-trivial: at least one event decided before the cut (distinct by prices, cut and configuration)",
    assumptions=["bar times are unique, increasing, tz-naive, with millisecond resolution and after 1970"],
)
def c07(case):
    rng = case.rng
    y, args, side, exact = draw(case, huge=(5000, 7000))
    n, N = len(y), args["num_expiration_bars"]
    full = run_labeler(case, y, args)
    cuts = sorted({int(c) for c in rng.integers(2, n + 1, 3)} | {n})
    for m in cuts:
        upto = m - N
        if upto <= 0:
            continue
        if m < n:
            part = run_labeler(case, y.iloc[:m], args)
            _decided_equal(case, "prefix", part, full, upto, f"cut at {m}, horizon {N}")
            case.event("prefixes")
            case.event("events_compared", upto)
            # another future: prices, sides and bar times differ from bar m on
            z = y.copy()
            z.iloc[m:, 0] = gen.prices(rng, n - m) * float(rng.choice([0.01, 1, 100]))
            if side is not None:
                z[args["side_column_name"]] = np.concatenate((side[:m], -side[m:]))
            if rng.random() < 0.5:
                late = y.index[m - 1].value + np.cumsum(rng.integers(1, 10**8, n - m)) * gen.MS
                z.index = pd.DatetimeIndex(np.concatenate((y.index.asi8[:m], late)))
            alt = run_labeler(case, z, args)
            _decided_equal(case, "altered-future", alt, full, upto, f"other future from {m}, horizon {N}")
            case.event("altered_futures")
        if upto > 0:
            case.seen(y.values, m, sorted(args.items()))
    if not args["volatility_adjusted_horizontal_barriers"] and n > 3:
        d = int(rng.integers(1, n - 1))
        tail = run_labeler(case, y.iloc[d:], args)
        _decided_equal(case, "earlier-bars", tail, full.iloc[d:], n - d, f"first {d} bars dropped")
        case.event("suffixes")
