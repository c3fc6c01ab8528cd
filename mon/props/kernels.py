"""C30: the parallel kernels under schedule and memory perturbation.

The same cases run in processes of five kinds:

  ref     one thread, allocations filled with one pattern
  tbb     8 threads (TBB layer), thread counts and chunk sizes varied, repeated,
          several kernels at the same time, allocations filled with another pattern
  omp     the same on the OpenMP layer
  bounds  compiled with bounds checks
  py      interpreted, sequential, np.empty filled with two different patterns

Every process stores what the public functions returned; the results are
compared across processes afterwards.
"""
import os
import threading

import numpy as np
import pandas as pd

from mon import core, gen
from mon.core import prop

MODES = {
    "ref": dict(NUMBA_NUM_THREADS="1", MALLOC_PERTURB_="85"),
    "tbb": dict(NUMBA_NUM_THREADS="8", NUMBA_THREADING_LAYER="tbb", MALLOC_PERTURB_="170"),
    "omp": dict(NUMBA_NUM_THREADS="6", NUMBA_THREADING_LAYER="omp", MALLOC_PERTURB_="17"),
    "bounds": dict(NUMBA_NUM_THREADS="3", NUMBA_BOUNDSCHECK="1", MALLOC_PERTURB_="255"),
    "py": dict(NUMBA_DISABLE_JIT="1", NUMBA_NUM_THREADS="1", MALLOC_PERTURB_="51"),
}
# compiling takes most of the time: two groups per mode, in separate processes
GROUPS = {"a": ("barriers", "active bets", "trend"), "b": ("sadf", "sdfc", "csw", "sdfc long", "csw long", "sadf idle", "sdfc idle", "csw idle")}
EXACT = 1e-9  # the same machine code, another schedule
LOOSE = 1e-5  # another linear algebra library


def workloads(rng, big, huge=False, idle_case=False):
    """name -> thunk returning a list of float arrays; sizes depend on `big` only."""
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    from mizarlabs.transformers.trading.bet_sizing import avg_active_signals

    w = {}
    n = int(rng.integers(200, 500) if big else rng.integers(6, 60))
    n += 1300 * huge
    index = gen.time_index(rng, n)
    close = gen.prices(rng, n, "walk")
    y = pd.DataFrame({"close": close, "side": rng.choice([-1, 1], n)}, index=index)
    kw = dict(num_expiration_bars=int(rng.integers(2, 25)), profit_taking_factor=float(rng.uniform(0, 0.03)), stop_loss_factor=float(rng.uniform(0, 0.03)),
              metalabeling=bool(rng.random() < 0.5), volatility_adjusted_horizontal_barriers=False, expiration_label=bool(rng.random() < 0.5))
    if not kw["metalabeling"] and rng.random() < 0.7:
        y = y[["close"]]

    def barriers():
        out = TripleBarrierMethodLabeling(**kw).transform(y.copy())
        return _arrays(out)

    w["barriers"] = barriers
    m = n
    # up to 20 bars, or so short that no bet is active at times
    ends = pd.Series(index.values[np.minimum(m - 1, np.arange(m) + rng.integers(0, gen.pick(rng, 1, 2, 3, 20), m))], index=index)
    if rng.random() < 0.4:
        ends[rng.random(m) < 0.15] = pd.NaT
    sig = pd.DataFrame({"event_end_time": ends, "bet_size": rng.uniform(-1, 1, m)}, index=index)
    w["active bets"] = lambda: _arrays(avg_active_signals(sig.copy(), "event_end_time", "bet_size"))
    L, mn, st = int(rng.integers(8, 20)), int(rng.integers(3, 6)), int(rng.integers(1, 4))
    tn = int(rng.integers(120, 250) if big else rng.integers(L + 1, L + 25)) + 1000 * huge
    ts = pd.DataFrame({"close": 50 + np.cumsum(rng.normal(0, 1, tn))}, index=gen.time_index(rng, tn))
    w["trend"] = lambda: _arrays(TrendScannerLabeling(look_forward_window=L, min_sample_length=mn, step=st).transform(ts["close"].copy()))
    model = gen.pick(rng, "no_trend", "linear", "sm_exp", "sm_power")
    sn = int(rng.integers(90, 140) if big else rng.integers(16, 34)) + 150 * huge
    s = pd.Series(20 + np.cumsum(rng.normal(0, 1, sn)), index=gen.time_index(rng, sn))
    s = s - min(0.0, s.min() - 1)
    lag, const, phi = int(rng.integers(1, 3)), bool(rng.random() < 0.5), float(rng.random())
    w["sadf"] = lambda: _arrays(SupremumAugmentedDickeyFullerStatTest(model, lag, 10, const, phi).run(s.copy()))
    k = int(rng.integers(1, 6))
    if huge:
        longer = pd.Series(30 + np.cumsum(rng.normal(0, 1, 1400)), index=gen.time_index(rng, 1400))
        w["sdfc long"] = lambda: _arrays(SupremumDickeyFullerChowStatTest(20 * k).run(longer.copy()))
        w["csw long"] = lambda: _arrays(ChuStinchcombeWhiteStatTest("two_sided").run(longer.copy()))
    w["sdfc"] = lambda: _arrays(SupremumDickeyFullerChowStatTest(k).run(s.copy()))
    side = gen.pick(rng, "one_sided_positive", "one_sided_negative", "two_sided")
    w["csw"] = lambda: _arrays(ChuStinchcombeWhiteStatTest(side).run(s.copy()))
    # a stretch without any move: regressions there are not identified
    at, length = int(rng.integers(1, sn - 12)), int(rng.integers(3, 16))
    idle = s.copy()
    idle.iloc[at: at + length] = idle.iloc[at]
    zeros = s - float(s.iloc[0])
    zeros.iloc[sn - int(rng.integers(1, 2 * k + 5)):] = 0.0
    still = idle.iloc[at:] if rng.random() < 0.5 else pd.Series(7.0, index=s.index)
    if idle_case:
        args = (gen.pick(rng, "no_trend", "linear"), lag, int(rng.integers(lag + 4, lag + 8)), const, phi)
        w["sadf idle"] = lambda: _arrays(SupremumAugmentedDickeyFullerStatTest(*args).run(idle.copy()))
        w["sdfc idle"] = lambda: _arrays(SupremumDickeyFullerChowStatTest(k).run(zeros.copy())) + _arrays(SupremumDickeyFullerChowStatTest(k).run(idle.copy()))
        w["csw idle"] = lambda: _arrays(ChuStinchcombeWhiteStatTest(side).run(still.copy()))
    return w, dict(n=n, trend=(tn, L, mn, st), model=model, series=sn, min_samples=k, side=side, **{a: b for a, b in kw.items()})


def _arrays(o):
    cols = [o[c] for c in o.columns] if isinstance(o, pd.DataFrame) else [o]
    out = [_num(o.index)]
    return out + [_num(c) for c in cols]


def _num(c):
    v = np.asarray(c)
    if v.dtype.kind == "M":
        x = v.astype("datetime64[ns]").astype(np.int64)
        f = x.astype(float)
        f[x == np.iinfo(np.int64).min] = np.nan
        return f
    return np.asarray(pd.to_numeric(pd.Series(v.ravel()), errors="coerce") if v.dtype == object else v, dtype=float)


def alike(a, b, tol):
    return len(a) == len(b) and all(gen.close(x, y, tol, tol * 1e-3) for x, y in zip(a, b))


def where(a, b, tol):
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} columns"
    return next((f"column {i}: " + gen.first_diff(x, y, tol, tol * 1e-3) for i, (x, y) in enumerate(zip(a, b)) if not gen.close(x, y, tol, tol * 1e-3)), "")


class PoisonedEmpty:
    """np.empty & co. return memory filled with a pattern (interpreted kernels)."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.old = np.empty, np.empty_like
        e, el = self.old
        v = self.value

        def fill(x):
            if type(x) is np.ndarray and x.dtype.kind == "f":
                x.fill(v)
            elif type(x) is np.ndarray and x.dtype.kind in "iu":
                x.fill(77)
            return x

        np.empty = lambda *a, **k: fill(e(*a, **k))
        np.empty_like = lambda *a, **k: fill(el(*a, **k))

    def __exit__(self, *a):
        np.empty, np.empty_like = self.old


@prop(
    "C30", quick=15, thorough=700, workers=1,
    rule="a case is one workload for each of the six kernels; it is run in five kinds of processes (see kernels.py) and, in the multi-threaded "
    "ones, with several thread counts, chunk sizes, repetitions and with all kernels running at the same time; all results have to agree; "
    "non-trivial: every case (distinct by results)",
    assumptions=["nearly singular regressions are compared between schedules only, not between linear algebra libraries", "results of different linear algebra libraries agree to 1e-5"],
    driver=lambda r: drive(r),
    technique="runtime monitoring: schedule and memory perturbation (threads, chunking, poisoned allocations, bounds-checked and interpreted kernels) with a differential oracle",
)
def c30(case):
    rng = case.rng
    mode = os.environ.get("VERIF_C30_MODE", "ref")
    big = case.idx % 3 == 2
    huge = case.idx % 15 == 14
    w, params = workloads(rng, big, huge, case.idx % 3 == 1)
    group = os.environ.get("VERIF_C30_GROUP")
    if group:
        w = {k: w[k] for k in GROUPS[group] if k in w}
    case.param(mode=mode, big=big, **params)
    if big and mode == "py":
        return  # too slow interpreted
    out = os.environ.get("VERIF_C30_OUT")
    results = {}
    if mode == "py":
        with PoisonedEmpty(np.nan):
            results = {k: f() for k, f in w.items()}
        with PoisonedEmpty(7.7e150):
            again = {k: f() for k, f in w.items()}
        for k in w:
            case.check(alike(results[k], again[k], EXACT), "uninitialised-memory", lambda: f"{k}: depends on uninitialised memory: {where(results[k], again[k], EXACT)}")
        case.event("poisoned_runs", 2 * len(w))
    else:
        results = {k: f() for k, f in w.items()}
        again = {k: f() for k, f in w.items()}
        for k in w:
            case.check(alike(results[k], again[k], EXACT), "repetition", lambda: f"{k}, {mode}: another result on repetition: {where(again[k], results[k], EXACT)}")
        case.event("runs", 2 * len(w))
    if mode in ("tbb", "omp"):
        import numba

        top = numba.config.NUMBA_NUM_THREADS
        for threads in [1, 2, 3, top] if not big else [1, 2, 3, 5, top, top]:
            numba.set_num_threads(min(threads, top))
            chunk = int(np.random.choice([0, 1, 2, 7]))
            numba.set_parallel_chunksize(chunk)
            for k, f in w.items():
                r = f()
                case.check(alike(r, results[k], EXACT), "threads", lambda: f"{k}, {mode}: {threads} threads, chunk {chunk}: {where(r, results[k], EXACT)}")
            case.event("thread_configurations")
        numba.set_num_threads(top)
        numba.set_parallel_chunksize(0)
        errors = []

        def run(order):
            try:
                for k in order:
                    r = w[k]()
                    if not alike(r, results[k], EXACT):
                        errors.append(f"{k}, {mode}: concurrent with other calls: {where(r, results[k], EXACT)}")
            except Exception as e:
                errors.append(f"{type(e).__name__}: {e}")

        ths = [threading.Thread(target=run, args=([str(x) for x in np.random.permutation(list(w))],)) for _ in range(4)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        case.event("concurrent_runs", 4 * len(w))
        case.check(not errors, "concurrent", "; ".join(errors[:3]))
        case.events["layer_" + numba.threading_layer()] = 1
    case.seen(mode, *[x for v in results.values() for x in v])
    if out:
        np.savez(os.path.join(out, f"{mode}{group or ''}-{case.idx}.npz"), **{f"{k}|{i}": x for k, v in results.items() for i, x in enumerate(v)})


def _load(path):
    d = np.load(path)
    out = {}
    for key in d.files:
        k, i = key.split("|")
        out.setdefault(k, {})[int(i)] = d[key]
    return {k: [v[i] for i in sorted(v)] for k, v in out.items()}


def drive(r):
    spec, scratch = r["spec"], r["scratch"]
    out = os.path.join(scratch, "results")
    os.makedirs(out)
    results, problems, box = [], [], {}

    def one(mode, group):
        env = dict(r["extra"], VERIF_C30_MODE=mode, VERIF_C30_GROUP=group, VERIF_C30_OUT=out, **MODES[mode])
        box[mode, group] = r["run_pool"](spec, r["tier"], r["seed"], r["total"], scratch, r["soft"], r["hard"], env, mode + group)

    modes = [m for m in MODES if m != "omp" or r["tier"] == "thorough"]
    ths = [threading.Thread(target=one, args=(m, g)) for m in modes for g in GROUPS]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for (m, g), (res, prob, _) in sorted(box.items()):
        results += res
        problems += [f"{m} {g}: {p}" for p in prob]
    failures, compared, dig = [], 0, []
    idxs = [int(r["extra"]["VERIF_ONLY_IDX"])] if "VERIF_ONLY_IDX" in r["extra"] else range(r["total"])
    for idx, g in ((i, g) for i in idxs for g in GROUPS):
        ref = os.path.join(out, f"ref{g}-{idx}.npz")
        if not os.path.exists(ref):
            continue
        a = _load(ref)
        for m in modes:
            p = os.path.join(out, f"{m}{g}-{idx}.npz")
            if m == "ref" or not os.path.exists(p):
                continue
            b = _load(p)
            tol = LOOSE if m in ("py", "bounds") else EXACT
            for k in a:
                if k == "sadf idle" and tol != EXACT:
                    continue  # nearly singular windows depend on rounding
                compared += 1
                if not alike(b[k], a[k], tol):
                    failures.append(dict(kind="across-processes", idx=idx, msg=f"{k}: {m} differs from the single-threaded run: {where(b[k], a[k], tol)}", detail={}))
    results.append(dict(done=0, events={"results_compared_across_processes": compared, "assertions": compared}, digests=dig, samples=[], failures=failures, wall=0))
    return results, problems
