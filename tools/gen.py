#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registered rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, HERE]
from props import NA, PROPS  # noqa: E402
from sa.rules import CHECKS  # noqa: E402

na = dict(NA)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        if p["id"] not in CHECKS and p["id"] not in na:
            print("no rule yet:", p["id"])
            continue
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["quant"]},
               "why_tests_cant": p["tests"],
               "anchors": {"files": p["files"],
                           "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                           "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]]},
               "observe_at": list(p["observe"]), "hook_needed": None}
        fh.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p["id"] in CHECKS:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": "static analysis: " + p["technique"],
            "level": p["level"],
            "level_note": p["note"] or "all paths of the named functions, callbacks and user code "
                                       "treated as arbitrary calls"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
missing = set(CHECKS) - {p["id"] for p in PROPS}
print("checks:", len(checks), "without a property:", sorted(missing))

# DESIGN.md
import glob  # noqa: E402
import re  # noqa: E402
from design_notes import CORRECTED, HOW, LIMITS, SEEDNOTE, SEEN  # noqa: E402

rules = {}
for f in sorted(glob.glob(os.path.join(ROOT, "sa", "rules", "*.py"))):
    for m in re.finditer(r'r\.rule\(\s*"([^"]+)",\s*((?:f?"[^"]*"\s*)+)', open(f).read()):
        rules[m[1]] = (re.sub(r'"\s*f?"', "", m[2]).strip().strip('"'),
                       os.path.relpath(f, ROOT))
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(os.path.join(HERE, "design_head.md")).read(), "## Properties\n"]
for p in PROPS:
    pid = p["id"]
    out.append(f"### {pid}: {p['title']}\n\n{p['statement']}\n")
    if pid in na:
        out.append(f"Not applicable: {na[pid]}\n")
        continue
    out.append(f"*Decided by*: {HOW.get(pid, '')}\n")
    if p["note"]:
        out.append(f"*Assumes*: {p['note']}.\n")
    out.append(f"*Beyond the tests because* it ranges over {p['quant']}.\n")
    if pid in LIMITS:
        out.append(f"*Limits*: {LIMITS[pid]}\n")
    mine = [(k, v) for k, v in rules.items() if k.startswith(pid + ".")]
    if mine:
        out.append(f"Rules (`{mine[0][1][1]}`):\n\n" +
                   "\n".join(f"* `{k}`: {v[0]}" for k, v in mine) + "\n")
    if pid in seeds:
        out.append("Planted bugs: " + ", ".join(f"`{n}`" for n, _ in seeds[pid]) + "\n")
out.append(CORRECTED)
out.append("## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for pid, ms in sorted(seeds.items()):
    for n, m in ms:
        out.append(f"| {n} | {pid} | {m['needs']} | {SEEN.get(n, '')} |")
out.append("\n" + SEEDNOTE)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
