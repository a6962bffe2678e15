#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin")); sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "P50": "Needs the compiler and ONNX dialect, which do not build here (MLIR 20 only), and is a pure function of model and input: no schedule, clock, fault or crash decides it.",
 "P51": "Rewrites are pure functions of the model; there is no interleaving, time, I/O or fault for a simulator to control.",
 "P52": "Shape inference is a pure function of the model.",
 "P53": "A pure function of a bit pattern; exhaustive input testing or proof is the right tool, not simulation.",
 "P55": "A pure function of a string; its use under faults is covered by the compile-session checks (P08-P11).",
 "P57": "The importer does not build here (needs the ONNX dialect) and is a pure function of the file.",
}
PENDING = "No simulation of this property has been built."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
          "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + c.technique, "level": c.level, "level_note": c.note})
    else: na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
 "hooks": {"guard": "none", "enable": "No hooks were added to /repo: every seam is at link time (wrapped libc calls, stub libraries) or load time (stub Python modules, audit hook).", "source_commits": []},
 "checks": checks, "not_applicable": na,
 "notes": "Each check builds its harness from /repo's working tree into /verif/build (git-ignored). Replay a reported violation with: python3 bin/check.py <ID> --replay <file>. Determinism proof over all checks: python3 bin/determinism.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
