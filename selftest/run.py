#!/usr/bin/env python3
"""Run the checks on edited copies of /repo/src: broken ones must alarm, refactored ones must not.

    python3 selftest/run.py [name-substring ...]

Each case is (name, file, [(old, new), ...], expected) where expected is a set of property
ids of which at least one must report (empty set: every check must stay quiet).
"""
import importlib
import io
import contextlib
import multiprocessing as mp
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def cases():
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("cases_") and f.endswith(".py"):
            out += importlib.import_module(f[:-3]).CASES
    return out


def run_case(case):
    name, path, edits, expected = case
    import check
    from sa.program import AnalysisBroken, Program
    from sa.report import Report
    from sa.rules import CHECKS, FLOORS
    d = tempfile.mkdtemp(prefix="sa-case-")
    try:
        shutil.copytree("/repo/src", os.path.join(d, "src"))
        fs = path if isinstance(path, (list, tuple)) else [path]
        texts = {p: open(os.path.join(d, "src/psygnal", p)).read() for p in fs}
        for e in edits:
            for p in fs:
                if e[0] in texts[p]:
                    texts[p] = texts[p].replace(e[0], e[1], e[2] if len(e) > 2 else 1)
                    break
            else:
                return name, "BADCASE", f"not found: {e[0][:60]!r}"
        for p, t in texts.items():
            compile(t, p, "exec")
            open(os.path.join(d, "src/psygnal", p), "w").write(t)
        hits, msgs = set(), []
        for pid, fn in sorted(CHECKS.items()):
            only = os.environ.get("ONLY")  # (restrict the checks run on refactorings)
            if pid not in (expected or (only.split(",") if only else CHECKS)):
                continue
            try:
                r = Report(pid, Program(d), "quick")
                fn(r)
                if len(r.obs) < FLOORS.get(pid, 1):
                    raise AnalysisBroken(f"floor {len(r.obs)}")
                kf = check.known(pid)
                for key, (what, loc) in r.findings.items():
                    if key not in kf:
                        hits.add(pid)
                        msgs.append(f"{pid} [{key}] {what[:150]}")
            except AnalysisBroken as e:
                msgs.append(f"{pid} BROKEN {e}")
                hits.add(pid + "!")
            except Exception as e:
                import traceback
                msgs.append(f"{pid} CRASH {type(e).__name__} {e} "
                            + traceback.format_exc().strip().splitlines()[-3])
                hits.add(pid + "!")
        if expected:
            ok = bool(hits & expected)
        else:
            ok = not hits
        return name, "ok" if ok else ("MISSED" if expected else "ALARM"), "\n      ".join(
            [f"hits={sorted(hits)} expected={sorted(expected)}"] + msgs[:6])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sel = sys.argv[1:]
    cs = [c for c in cases() if not sel or any(s in c[0] for s in sel)]
    with mp.Pool(8) as pool:
        bad = 0
        for name, st, msg in pool.imap_unordered(run_case, cs):
            if st != "ok" or sel:
                bad += st != "ok"
                print(f"{st:8} {name}\n      {msg}", flush=True)
    print(f"{len(cs)} cases, {bad} bad")
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
