#!/opt/venv/bin/python
"""Runs the monitors of one property and gives the verdict.

    check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

exit 0: held on everything observed; exit 1: violated (VIOLATION line);
exit 2: inconclusive (nothing or too little observed, or the harness failed).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
NCPU = os.cpu_count() or 4


def worker_env(spec, scratch, extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        PYTHONPATH=HERE,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS=str(spec.threads),
        JOBLIB_TEMP_FOLDER=scratch,
        TMPDIR=scratch,
        PYTHONWARNINGS="ignore",
    )
    env.pop("NUMBA_DISABLE_JIT", None)
    env.update(spec.env)
    env.update(extra or {})
    return env


def run_pool(spec, tier, seed, total, scratch, soft, hard, extra_env=None, tag=""):
    n = max(1, min(spec.workers, NCPU, total))
    procs = []
    for i in range(n):
        out = os.path.join(scratch, f"w{tag}{i}.json")
        log = open(os.path.join(scratch, f"w{tag}{i}.log"), "wb")
        procs.append(
            (
                subprocess.Popen(
                    [PY, "-m", "mon.worker", spec.pid, tier, str(seed), str(i), str(n),
                     str(total), str(soft), out],
                    cwd=scratch, env=worker_env(spec, scratch, extra_env),
                    stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                ),
                out, log.name,
            )
        )
    t0 = time.monotonic()
    results, problems = [], []
    for p, out, log in procs:
        left = hard - (time.monotonic() - t0)
        try:
            p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            problems.append("a worker ran into the time limit")
        if os.path.exists(out):
            results.append(json.load(open(out)))
        elif -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            idx = int(open(out + ".idx").read()) if os.path.exists(out + ".idx") else 0
            txt = open(log, "rb").read()[-800:].decode("utf8", "replace")
            results.append(dict(done=1, events={"crashes": 1}, digests=[], samples=[], wall=0, failures=[dict(
                idx=idx, kind="crash", msg=f"the process died with signal {-p.returncode}: {txt}", detail={})]))
        else:
            txt = open(log, "rb").read()[-3000:].decode("utf8", "replace")
            problems.append(f"a worker gave no result (exit {p.returncode}): {txt}")
    return results, problems, n


def merge(results):
    ev, dig, samples, failures, done = {}, set(), [], [], 0
    for r in results:
        done += r["done"]
        for k, v in r["events"].items():
            ev[k] = ev.get(k, 0) + v
        dig.update(r["digests"])
        samples += r["samples"]
        failures += r["failures"]
    samples.sort(key=lambda s: s.get("idx", 0))
    failures.sort(key=lambda f: f.get("idx", 0))
    return ev, dig, samples, failures, done


def known_findings():
    path = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    from mon import core

    # the registry is read without importing mizarlabs code into this process
    os.environ["VERIF_PARENT"] = "1"
    t0 = time.monotonic()
    spec = core.load(a.pid)
    total = a.cases or (spec.quick if a.tier == "quick" else spec.thorough)
    soft, hard = (200, 600) if a.tier == "quick" else (3000, 5400)
    scratch = tempfile.mkdtemp(prefix="verif-")
    extra = {}
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.tier = rep["seed"], rep["tier"]
        extra["VERIF_ONLY_IDX"] = str(rep["idx"])
        total = 1
    try:
        if spec.driver:
            results, problems = spec.driver(
                dict(spec=spec, tier=a.tier, seed=a.seed, total=total, scratch=scratch,
                     soft=soft, hard=hard, extra=extra, run_pool=run_pool)
            )
        else:
            results, problems, _ = run_pool(
                spec, a.tier, a.seed, total, scratch, soft, hard, extra
            )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev, dig, samples, failures, done = merge(results)

    known = [k for k in known_findings() if k.get("property") == a.pid and k.get("status") == "open"]
    new, old = [], {}
    for f in failures:
        hit = next((k for k in known if k["kind"] == f["kind"] and k.get("where", "") in f["msg"]), None)
        if hit:
            old.setdefault(hit["id"], (hit, f))
        else:
            new.append(f)
    for hit, f in old.values():
        print(f"KNOWN-FINDING: property={a.pid} {hit['what']}")

    code = 0
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        f = new[0]
        path = os.path.join(HERE, "replay", f"{a.pid}-{a.tier}-{a.seed}-{f.get('idx')}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=a.pid, tier=a.tier, seed=a.seed, idx=f.get("idx"),
                           failures=new[:20]), fh, indent=1)
        kinds = sorted({x["kind"] for x in new})
        for x in new[:3]:
            print(f"  [{x['kind']}] case {x.get('idx')}: {x['msg'][:400]}")
        print(f"  kinds: {', '.join(kinds)}; {len(new)} failures in {done} cases")
        print(f"VIOLATION property={a.pid} replay={path}")
        code = 1
    elif problems:
        for p in problems:
            print("INCONCLUSIVE:", p)
        code = 2
    elif not a.replay and (done < spec.min_frac * total or len(dig) == 0):
        print(f"INCONCLUSIVE: only {done} of {total} cases, {len(dig)} distinct observations")
        code = 2
    wall = time.monotonic() - t0
    if not a.no_evidence and not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        evid = dict(
            property=a.pid, tier=a.tier, seed=a.seed, level="exploration",
            coverage=dict(
                evaluations=done, distinct_nontrivial=len(dig), rule=spec.rule,
                samples=samples[:6], observed_events=ev,
                verdict={0: "held on what was observed", 1: "violated", 2: "inconclusive"}[code],
            ),
            assumptions=spec.assumptions, wall_s=round(wall, 2), violations=len(new),
        )
        tmp = os.path.join(HERE, "evidence", a.pid + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(evid, fh, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", a.pid + ".json"))
    print(f"{a.pid} {a.tier} seed={a.seed}: {done} cases, {len(dig)} distinct observations, "
          f"{ev.get('assertions', 0)} assertions, {len(new)} new failures, {wall:.1f}s, exit {code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
