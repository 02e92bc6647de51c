#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

    python3 /verif/check.py C01 --tier quick|thorough

Reads /repo's current source, prints what was analysed, KNOWN-FINDING / VIOLATION lines,
and writes /verif/evidence/<id>.json.  Exit 0: holds (apart from listed known findings);
exit 1: violation; exit 2: the analysis could not run (anchor vanished, internal error).
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.program import AnalysisBroken, Program  # noqa: E402
from sa.report import Report  # noqa: E402
from sa.rules import CHECKS, FLOORS  # noqa: E402


def known(prop):
    """key -> text of the findings listed for this property."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, what = line[7:].partition(" -- ")
        f = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
        if f.get("property") == prop:
            out[f["key"]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="all")
    ap.add_argument("--setup", action="store_true", help="only check that the engine loads")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        print(f"{len(CHECKS)} rules loaded, {len(Program().modules)} modules parsed")
        return 0
    ids = sorted(CHECKS) if a.prop == "all" else [a.prop]
    rc = 0
    for pid in ids:
        rc = max(rc, run(pid, a.tier, time.time() if len(ids) > 1 else t0))
    return rc


def run(pid, tier, t0):
    kf = known(pid)
    try:
        prog = Program()
        r = Report(pid, prog, tier)
        CHECKS[pid](r)
        if len(r.obs) < FLOORS.get(pid, 1):
            raise AnalysisBroken(f"only {len(r.obs)} obligations found, expected at least "
                                 f"{FLOORS.get(pid, 1)}")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error")
        return 2
    new, old = [], []
    for key, (what, loc) in sorted(r.findings.items()):
        (old if key in kf else new).append((key, what, loc))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    oks = sum(1 for o in r.obs if o[2])
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo/src: path-sensitive interprocedural flow "
                           "analysis; every obligation below is decided from the source text of "
                           "this run",
            "rules": r.rules,
            "functions_analysed": sorted(r.funcs),
            "functions": len(r.funcs), "paths": r.paths,
            "obligations": len(r.obs), "discharged": oks,
            "obligation_list": [f"{o[0]} {o[1]} {'ok' if o[2] else 'FAILED'} {o[3]}"
                                for o in r.obs][:400],
            "modules_parsed": len(prog.modules),
            "incomplete": r.incomplete, "notes": r.notes,
        },
        "assumptions": ["user callbacks leave private state of the package alone",
                        "the interpreter implements locks, weak references and `with` as "
                        "documented"],
        "violations": [{"key": k, "what": w, "where": loc} for k, w, loc in new],
        "known_findings": [{"key": k, "what": w, "where": loc} for k, w, loc in old],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(r.funcs)} functions, {r.paths} paths, {len(r.obs)} obligations, "
          f"{oks} discharged, rules {' '.join(sorted(r.rules))}")
    for rid, text in sorted(r.rules.items()):
        n = sum(1 for o in r.obs if o[0] == rid)
        print(f"  {rid} [{n} obligations] {text}")
    for x in r.incomplete:
        print(f"  incomplete: {x}")
    for key, what, loc in old:
        print(f"KNOWN-FINDING: property={pid} {what} [{key}] at {loc}")
    if not new:
        return 0
    rp = os.path.join(HERE, "evidence", f"{pid}.replay.txt")
    with open(rp, "w", encoding="utf-8") as f:
        f.write(f"python3 /verif/check.py {pid} --tier {tier}\n")
        for key, what, loc in new:
            f.write(f"{key}\n  {what}\n  at {loc}\n")
    for key, what, loc in new:
        print(f"VIOLATION property={pid} replay={rp} [{key}] {what} at {loc}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
