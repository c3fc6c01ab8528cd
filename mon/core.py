"""Core of the runtime monitors.

A property is a *case function*: it draws a hostile workload from its own
random generator, runs the real mizarlabs code on it with monitors around the
calls, and hands what was observed to an oracle.  `Case` is the interface
between the case function and the machinery that counts, reports and replays.
"""
import hashlib
import json
import os
import signal
import sys
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


class PropertySpec:
    def __init__(self, pid, fn, quick, thorough, rule, assumptions, workers, threads,
                 min_frac, env, driver, batch, technique=None):
        self.technique = technique
        self.pid = pid
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.assumptions = assumptions
        self.workers = workers
        self.threads = threads
        self.min_frac = min_frac
        self.env = env
        self.driver = driver
        self.batch = batch


def prop(pid, quick, thorough, rule, assumptions=(), workers=6, threads=1,
         min_frac=0.25, env=None, driver=None, batch=None,
         technique=None):
    """Register a case function for a property.

    quick / thorough: number of cases per tier.
    min_frac: share of the planned cases that has to be observed for a verdict.
    driver: optional function(runner) that replaces the default worker pool.
    """

    def deco(fn):
        REGISTRY[pid] = PropertySpec(
            pid, fn, quick, thorough, rule, list(assumptions), workers, threads,
            min_frac, dict(env or {}), driver, batch, technique
        )
        return fn

    return deco


CASE_LIMIT_S = 150  # cases take milliseconds to a few seconds


class Overrun(BaseException):
    pass


def _overrun(signum, frame):
    raise Overrun()


class StopCase(Exception):
    """The case is abandoned (the workload it drew is outside the domain)."""


def digest(*parts):
    h = hashlib.blake2b(digest_size=10)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str(p.dtype).encode())
            h.update(np.ascontiguousarray(p).tobytes() if p.dtype != object else repr(p.tolist()).encode())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


class Case:
    def __init__(self, pid, tier, seed, idx):
        self.pid, self.tier, self.seed, self.idx = pid, tier, seed, idx
        self.rng = np.random.default_rng([seed, int(pid[1:]), idx])
        self.failures = []
        self.events = {}
        self.params = {}
        self.digests = []
        self.expected_error = False

    # -- what was drawn -------------------------------------------------
    def param(self, **kw):
        for k, v in kw.items():
            if isinstance(v, np.generic):
                v = v.item()
            self.params[k] = v

    # -- what was observed ----------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *parts):
        """A distinct non-trivial observation, identified by its content."""
        self.digests.append(digest(*parts))

    def fail(self, kind, msg, **detail):
        self.failures.append(
            {"kind": kind, "msg": str(msg)[:1500], "detail": _plain(detail)}
        )

    def check(self, cond, kind, msg="", **detail):
        self.event("assertions")
        if not bool(cond):
            self.fail(kind, msg() if callable(msg) else msg, **detail)
            return False
        return True

    def refuses(self, kind, fn, *exc):
        """fn() has to be refused with an error."""
        exc = exc or (Exception,)
        self.event("refusals_checked")
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # another error is a refusal too
            return True
        self.fail(kind, "accepted instead of being refused")
        return False


def _plain(o):
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        o = list(o)
        return [_plain(v) for v in o[:60]]
    if isinstance(o, np.ndarray):
        return [_plain(v) for v in o.ravel()[:60].tolist()]
    if isinstance(o, np.generic):
        return _plain(o.item())
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    return repr(o)[:300]


def prepare_imports():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import mizarlabs

    where = os.path.realpath(os.path.dirname(mizarlabs.__file__))
    want = os.path.realpath(os.path.join(REPO, "mizarlabs"))
    if where != want:
        raise SystemExit(f"mizarlabs is imported from {where}, not {want}")
    import logging

    logging.disable(logging.CRITICAL)


def load(pid):
    """Import the module that registers pid."""
    from mon import index

    index.import_for(pid)
    return REGISTRY[pid]


HARNESS_ERRORS = (MemoryError, OSError, KeyboardInterrupt)


def run_case(spec, tier, seed, idx):
    case = Case(spec.pid, tier, seed, idx)
    np.random.seed((seed * 1000003 + idx * 7919 + int(spec.pid[1:])) % (2**32))
    import random as _random

    _random.seed(seed * 7919 + idx)
    signal.signal(signal.SIGALRM, _overrun)
    signal.alarm(CASE_LIMIT_S)
    try:
        spec.fn(case)
    except Overrun:
        case.fail("no-termination", f"the calls of this case did not end within {CASE_LIMIT_S} s")
    except StopCase:
        case.event("abandoned")
    except HARNESS_ERRORS:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/mizarlabs/" in f.filename]
        where = f"{inside[-1].filename.split('/mizarlabs/')[-1]}:{inside[-1].name}" if inside else "caller"
        case.fail(
            "unexpected-error",
            f"{type(e).__name__}: {e} (in {where})",
            traceback=[f"{f.filename}:{f.lineno} {f.name}" for f in tb][-8:],
            inside_repo=bool(inside),
        )
    finally:
        signal.alarm(0)
    return case
