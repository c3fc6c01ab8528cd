"""Writes DESIGN.md: hand-written text plus the table of what is registered."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import core, index

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
WHY = json.load(open(HERE + "/tools/design_why.json"))
out = [open(HERE + "/tools/design_head.md").read()]
for pid in sorted(index.BY_ID):
    s, p, w = core.load(pid), P[pid], WHY[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Monitor and oracle.* {w['oracle']}\n")
    out.append(f"*Workload.* {s.rule[0].upper() + s.rule[1:]}.\n")
    if s.assumptions:
        out.append("*Domain limits and tolerances.* " + "; ".join(s.assumptions) + ".\n")
    out.append(f"*Bounds and cost.* {s.quick} cases (quick, about {w['time']} s on 8 cores), {s.thorough} cases (thorough); {w['bounds']}\n")
    out.append(f"*Reach beyond the tests.* {w['why']}\n")
out.append(open(HERE + "/tools/design_tail.md").read())
out.append("## Planted bugs and the checks that catch them\n")
out.append(
    "Every folder of `seeded/` was built in a scratch copy: the demonstration passes on the unchanged tree and fails with the patch, the stable "
    "tests pass with it, and the quick check of its property reports it. Those a check missed at first are why the workloads look as they do "
    "(see *Misses that changed a check*).\n"
)
out.append("| property | bug | needs |\n|---|---|---|")
bugs = []
for b in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
    bugs.append((m["property"], b, " ".join(m["needs"].split()).replace("|", "/")))
out[-1] += "".join(f"\n| {p} | {b} | {n} |" for p, b, n in sorted(bugs)) + "\n"
open(HERE + "/DESIGN.md", "w").write("\n".join(out))
print(len(out))
