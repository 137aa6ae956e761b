#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of the tree in /repo.

exit 0: holds (KNOWN-FINDING lines for listed findings); exit 1: VIOLATION line; anything else: the analysis is broken."""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    res = mod.check(tier)
    wall = time.time() - t0
    if res.obligations < mod.MIN_OBLIGATIONS:
        print(f"analysis broken: {res.obligations} obligations, expected at least {mod.MIN_OBLIGATIONS}")
        return 3
    kn = known(pid)
    new, old = [], []
    for f in res.findings:
        m = [t for k, t in kn if k == f.key]
        (old if m else new).append((f, m[0] if m else None))
    print(f"{pid}: {res.obligations} obligations, {res.discharged} discharged; " +
          ", ".join(f"{k}: {v}" for k, v in sorted(res.notes.items())))
    for f, text in old:
        print(f"KNOWN-FINDING: property={pid} {text}")
    cov = {"obligations": res.obligations, "discharged": res.discharged, "explanation": mod.EXPLAIN,
           "analysed": res.notes, "samples": res.samples[:12], "programs": res.notes.get("programs compared", 0),
           "disagreements_checked": res.obligations, "known_findings": len(old)}
    if mod.LEVEL != "translation_validation":
        cov.pop("programs")
        cov.pop("disagreements_checked")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not new:
        print(f"{pid}: holds on the current tree ({wall:.1f} s)")
        return 0
    rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
    with open(rp, "w") as f:
        for x, _ in new:
            f.write(str(x) + "\n")
    for x, _ in new[:20]:
        print(str(x)[:1500])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print(f"analysis broken: {type(e).__name__}: {str(e)[:500]}")
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
