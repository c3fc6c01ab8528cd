"""One worker process: runs a slice of the cases of one property."""
import json
import os
import sys
import time


def main():
    pid, tier, seed, shard, shards, total, deadline, out = sys.argv[1:9]
    seed, shard, shards, total = int(seed), int(shard), int(shards), int(total)
    deadline = float(deadline)
    from mon import core

    core.prepare_imports()
    spec = core.load(pid)
    idxs = range(shard, total, shards)
    only = os.environ.get("VERIF_ONLY_IDX")
    if only:
        idxs = [int(only)]
    t0 = time.monotonic()
    events, digests, samples, failures = {}, set(), [], []
    done = abandoned = 0
    for idx in idxs:
        if time.monotonic() - t0 > deadline:
            events["stopped_at_time_limit"] = 1
            break
        with open(out + ".idx", "w") as f:
            f.write(str(idx))
        case = core.run_case(spec, tier, seed, idx)
        done += 1
        for k, v in case.events.items():
            events[k] = events.get(k, 0) + v
        digests.update(case.digests)
        if len(samples) < 3 and case.params:
            samples.append({"idx": idx, **core._plain(case.params), "observed": case.events})
        for f in case.failures[:5]:
            f["idx"] = idx
            f["params"] = core._plain(case.params)
            failures.append(f)
        if len(failures) > 40:
            events["stopped_after_many_failures"] = 1
            break
    res = dict(
        done=done, events=events, digests=sorted(digests), samples=samples,
        failures=failures, wall=time.monotonic() - t0, finished=True,
    )
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)


if __name__ == "__main__":
    main()
