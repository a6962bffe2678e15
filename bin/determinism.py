#!/usr/bin/env python3
"""Determinism proof: every check's runs give the same histories at 1, 3 and 8 workers, in fresh processes, under other PYTHONHASHSEEDs."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import registry, check
n = int(sys.argv[1]) if len(sys.argv) > 1 else 600
only = sys.argv[2:]; bad = 0
for p, c in sorted(registry.CHECKS.items()):
    if only and p not in only: continue
    c.build(p); sums = []
    m = max(40, int(n * min(1, c.runs["quick"] / 20000)))
    for k, w in enumerate((1, 3, 8, 8)):
        tmp = tempfile.mkdtemp(prefix="sim_")
        try:
            c.env = dict(c.env, PYTHONHASHSEED=str(k + 1)); R = check.Runner(p, c, tmp)
            r = R.batch(424242, w, m, 600); sums.append((sum(d["runs"] for d in r), sum(int(d["hashsum"], 16) for d in r) & (2**64 - 1)))
        finally: shutil.rmtree(tmp, ignore_errors=True)
    ok = len(set(sums)) == 1; bad += not ok
    print(p, "deterministic" if ok else "DIVERGES", sums[0][0], "runs", "" if ok else sums, flush=True)
sys.exit(1 if bad else 0)
