#!/usr/bin/env python3
"""Revert each repair (a "fixed" entry of known-findings.json) in a scratch clone and run its property's quick check there:
checkfixes.py [COMMIT...]. Nothing in /repo or /verif is touched; both scratch copies are removed at the end."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def entries():
    for e in json.load(open(VERIF + "/known-findings.json"))["fixed"]:
        w = e.split() if isinstance(e, str) else None
        yield (w[1].split("=")[1], w[2], " ".join(w[3:])) if w else (e["property"], e["commit"], e.get("what", ""))
def main():
    only = sys.argv[1:]; T = tempfile.mkdtemp(prefix="checkfixes-"); repo, vx = T + "/repo", T + "/verif"; n = {}
    try:
        sh("git clone -q /repo %s" % repo); os.makedirs(vx)
        for d in ("bin", "sim", "harness", "tools", "known-findings.json", "properties.jsonl"): sh("cp -a %s/%s %s/" % (VERIF, d, vx))
        env = dict(os.environ, SIM_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        for prop, c, what in entries():
            if only and not any(c.startswith(o) for o in only): continue
            sh("git reset -q --hard; git clean -qfd", cwd=repo)
            r = sh("git revert -n %s" % c, cwd=repo); res = ""
            if r.returncode: res = "conflict"; sh("git revert --abort; git reset -q --hard", cwd=repo)
            else:
                r = sh("python3 bin/check.py %s --tier quick" % prop, cwd=vx, env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
                res = "reported" if r.returncode == 1 and v else "build" if "error:" in r.stdout + r.stderr else "MISSED rc=%d" % r.returncode
                if v: what = os.path.basename(v[0].split("replay=")[1]) + "  " + what
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            print("%-10s %s %s %s" % (res, prop, c, what[:110]), flush=True)
        print(n)
    finally: shutil.rmtree(T, ignore_errors=True)
main()
