#!/usr/bin/env python3
"""Author a planted bug: mkbug.py SPEC.py  (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo={name: text}).
Applies the edits in /repo, builds, runs the stable tests, the demo and the property's check, writes seeded/<id>, undoes everything.
mkbug.py --recheck ID... : applies the kept patch and runs demo and check only."""
import json, os, re, subprocess, sys, time
REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): return sh("git -C /repo status --porcelain").stdout.strip() == ""
def undo(): sh("git -C /repo checkout -- .")
def tests():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "build failed\n" + (r.stdout + r.stderr)[-3000:]
    sh("bash /opt/vp/test.sh /tmp/mkbug.json"); t = json.load(open("/tmp/mkbug.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(t.get("passed", t.get("pass", []))); bad = [s for s in stable if s not in ok]
    return "" if not bad else "tests failed: %s" % bad[:5]
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)
def check(prop):
    t = time.time(); r = sh("python3 %s/bin/check.py %s --tier quick" % (VERIF, prop), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v, r.stdout[-600:], time.time() - t
def main():
    assert clean(), "repo not clean"
    if sys.argv[1] == "--recheck":
        for i in sys.argv[2:]:
            d = VERIF + "/seeded/" + i; m = json.load(open(d + "/meta.json"))
            try:
                r = sh("git -C /repo apply %s/patch.diff" % d)
                if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
                rc, v, out, dt = check(m["property"]); print(i, m["property"], "CAUGHT" if rc == 1 and v else "missed rc=%d" % rc, "%.0fs" % dt, v[:1], flush=True)
            finally: undo()
        return
    s = {}; exec(open(sys.argv[1]).read(), s)
    d = VERIF + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            t = open(REPO + "/" + f).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(REPO + "/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        for n, t in s["demo"].items(): open(d + "/" + n, "w").write(t)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        e = tests(); print("tests with patch:", e or "pass")
        r = demo(d); print("demo with patch: rc=%d" % r.returncode, (r.stdout + r.stderr)[-400:])
        if os.environ.get("NOCHECK"): return
        rc, v, out, dt = check(s["prop"]); print("check: rc=%d %s %.0fs" % (rc, v, dt)); 
        if rc != 1: print(out)
    finally:
        undo()
        sh("bash /opt/vp/build.sh"); r = demo(d); print("demo without patch: rc=%d" % r.returncode, (r.stdout + r.stderr)[-400:] if r.returncode else "", flush=True)
main()
