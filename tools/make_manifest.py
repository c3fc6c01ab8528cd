"""Writes /verif/MANIFEST.json: a check for every property whose monitor exists."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mon import core, index

NOTE = (
    "Exploration: no violation in the executions observed (counts in the evidence file); says nothing about "
    "workloads not generated. Trusts the oracle in mon/props/{m}.py, numpy/pandas/scikit-learn/numba, and the "
    "domain limits stated there."
)
TECH = {
    "C30": "runtime monitoring: schedule and memory perturbation (threads, chunking, poisoned allocations, bounds-checked and interpreted kernels) with a differential oracle",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    m = index.BY_ID[pid]
    if os.path.exists(os.path.join(HERE, "mon/props", m + ".py")):
        importlib.import_module("mon.props." + m)
    spec = core.REGISTRY.get(pid)
    if spec is None:
        na.append(dict(property=pid, reason="monitor under construction"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check {pid}",
        thorough_cmd=f"VERIF_TIER=thorough ./check {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=TECH.get(pid, spec.technique or "runtime monitoring: online monitor and independent oracle over recorded executions of randomized workloads"),
        level="exploration",
        level_note=NOTE.format(m=m),
    ))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No instrumentation is committed to /repo: the monitors hook the public API from outside, so there is no guard. All commits in /repo are fix: commits.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "without")
