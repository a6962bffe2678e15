#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]
Runs the deterministic simulation of one property (see DESIGN.md)."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.dont_write_bytecode = True
import simbuild, registry

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True); sys.exit(3)

class Runner:
    """Runs one harness (C++ executable or Python simulation) by seed or replay."""
    def __init__(self, prop, cfg, tmp):
        self.prop, self.cfg, self.tmp = prop, cfg, tmp
        self.cmd = cfg.command(prop)
        self.n = 0
    def env(self):
        e = dict(os.environ); e["LC_ALL"] = "C"; e["PYTHONDONTWRITEBYTECODE"] = "1"; e.pop("OM_CONSTANT_PATH", None)
        for k in list(e):
            if k.startswith(("ONNX_MLIR", "OM_", "VERIF_", "OMP_")): e.pop(k)
        e.update(self.cfg.env); return e
    def single(self, seed=None, choices=None, verbose=False):
        self.n += 1
        out = os.path.join(self.tmp, "one%d.json" % self.n)
        cmd = self.cmd + ["--out", out, "--tmp", self.tmp]
        if choices is not None:
            rf = os.path.join(self.tmp, "rep%d.txt" % self.n)
            with open(rf, "w") as f: f.write(" ".join(map(str, choices)))
            cmd += ["--replay", rf]
        else: cmd += ["--seed", str(seed)]
        if verbose: cmd += ["--verbose"]
        r = subprocess.run(cmd, env=self.env(), stdin=subprocess.DEVNULL, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.DEVNULL, timeout=300)
        if r.returncode: raise RuntimeError("harness ended with %d" % r.returncode)
        with open(out, errors="replace") as f: d = json.load(f)
        os.unlink(out)
        if choices is not None: os.unlink(rf)
        return d
    def batch(self, base, workers, total, tlimit):
        procs = []
        for w in range(workers):
            out = os.path.join(self.tmp, "batch%d.json" % w)
            cmd = self.cmd + ["--batch", "--base", str(base), "--start", str(w), "--stride", str(workers),
                   "--runs", str((total + workers - 1 - w) // workers), "--time", str(tlimit), "--out", out, "--tmp", self.tmp]
            procs.append((subprocess.Popen(cmd, env=self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
        res = []
        for p, out in procs:
            try: _, err = p.communicate(timeout=tlimit + 200)
            except subprocess.TimeoutExpired:
                for q, _ in procs: q.kill()
                raise RuntimeError("a worker did not end")
            if p.returncode: raise RuntimeError("a worker ended with %d: %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
            with open(out, errors="replace") as f: d = json.load(f)
            for suf in (".nt", ".st"):
                s = set()
                if os.path.exists(out + suf):
                    b = open(out + suf, "rb").read()
                    s = {b[i:i + 8] for i in range(0, len(b), 8)}
                d[suf] = s
            res.append(d)
        return res

def shrink(run, choices, cls, budget=45.0, maxruns=1500):
    t0 = time.time(); n = [0]; cache = {}
    def ok(c):
        k = tuple(c)
        if k in cache: return cache[k]
        if time.time() - t0 > budget or n[0] >= maxruns: return None
        n[0] += 1
        try: d = run.single(choices=c)
        except Exception: cache[k] = None; return None
        r = d["choices"] if d["violated"] and d["class"] == cls else None
        if r is not None:
            while r and r[-1] == 0: r = r[:-1]
        cache[k] = r; return r
    cur = list(choices)
    while cur and cur[-1] == 0: cur.pop()
    def better(a, b): return (len(a), sum(1 for x in a if x), sum(a)) < (len(b), sum(1 for x in b if x), sum(b))
    improved = True
    while improved and time.time() - t0 < budget and n[0] < maxruns:
        improved = False
        size = max(1, len(cur) // 2)
        while size >= 1:
            i = 0
            while i < len(cur):
                cand = cur[:i] + cur[i + size:]; r = ok(cand)
                if r is not None and better(r, cur): cur = r; improved = True
                else:
                    if any(cur[i:i + size]):
                        cand = cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]; r = ok(cand)
                        if r is not None and better(r, cur): cur = r; improved = True
                    i += size
                if time.time() - t0 > budget: break
            size //= 2
        for i in range(len(cur)):
            if i >= len(cur) or cur[i] < 2: continue
            for v in {1, cur[i] // 2, cur[i] - 1}:
                cand = list(cur); cand[i] = v; r = ok(cand)
                if r is not None and better(r, cur): cur = r; improved = True; break
            if time.time() - t0 > budget: break
    return cur, n[0]

def norm(text): return re.sub(r"0x[0-9a-f]+", "0x?", text)
def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]
def match_known(known, cls, text):
    for k in known:
        if k["class"] == cls and re.search(k["text"], text): return k
    return None

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay"); ap.add_argument("--seed", type=int, default=None); ap.add_argument("--runs", type=int); ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1)); ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--one", type=int, help="run one seed and print its log")
    a = ap.parse_args()
    t0 = time.time(); prop = a.prop
    try: vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError: vseed = 1
    if a.seed is not None: vseed = a.seed
    cfg = registry.get(prop)
    try: cfg.build(prop)
    except simbuild.BuildError as e: die(str(e))
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim_")
    try: return run(a, prop, cfg, vseed, tmp, t0, tb)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run(a, prop, cfg, vseed, tmp, t0, tb):
    R = Runner(prop, cfg, tmp)
    if a.one is not None:
        d = R.single(seed=a.one, verbose=a.verbose); print(d["log"]); print(d["class"], d["text"]); return 0
    if a.replay:
        rp = json.load(open(a.replay)); d = R.single(choices=rp["choices"], verbose=a.verbose)
        print(d["log"])
        same = d["violated"] and d["class"] == rp["class"]
        print("hash %s (recorded %s)%s" % (d["hash"], rp["hash"], "" if d["hash"] == rp["hash"] else " DIFFERENT"))
        if same: print("VIOLATION property=%s replay=%s" % (prop, a.replay)); return 1
        if d["violated"]: print("another violation: %s %s" % (d["class"], d["text"])); print("VIOLATION property=%s replay=%s" % (prop, a.replay)); return 1
        print("the recorded violation does not occur"); return 0
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = a.runs or cfg.runs[tier]; tl = a.time or cfg.time[tier]
    base = vseed * 1000003 + (7 if tier == "thorough" else 0)
    try: res = R.batch(base, a.workers, runs, tl)
    except RuntimeError as e: die(str(e))
    twall = time.time() - t0 - tb
    viol = sorted((v for d in res for v in d["violations"]), key=lambda v: (v["nch"], v["index"]))
    # determinism sample: a few runs again, in one worker instead of many
    chk = 0
    kf = load_known(prop)
    if all(match_known(kf, v["class"], v["text"]) for v in viol):
        n = min(cfg.recheck, runs)
        try:
            a1 = R.batch(base, 1, n, 60)[0]; a2 = R.batch(base, min(3, a.workers), n, 60)
            nd = sum(d["runs"] for d in a2)
            s1 = int(a1["hashsum"], 16); s2 = sum(int(d["hashsum"], 16) for d in a2) & (2**64 - 1)
            if a1["runs"] == nd == n: chk = n if s1 == s2 else -n
        except RuntimeError: pass
        if chk < 0: print("note: %d runs repeated under another worker count gave another history" % n)
    known = load_known(prop); found_known = set(); reported = []; errors = []
    tried = {}
    for v in viol:
        k = match_known(known, v["class"], v["text"])
        if k: found_known.add(k["id"]); continue
        if v["class"] in [r["class"] for r in reported] or len(reported) >= 3: continue
        if tried.get(v["class"], 0) >= 4: continue
        tried[v["class"]] = tried.get(v["class"], 0) + 1
        # gate: the same seed twice in fresh processes, identical history
        d1 = R.single(seed=v["seed"]); d2 = R.single(seed=v["seed"])
        if not (d1["violated"] and d2["violated"] and d1["hash"] == d2["hash"] and d1["class"] == v["class"]):
            errors.append("seed %d: %s did not reproduce (%s / %s)" % (v["seed"], v["class"], d1["class"], d2["class"])); continue
        ch, nshr = shrink(R, d1["choices"], v["class"], budget=cfg.shrink)
        m1 = R.single(choices=ch); m2 = R.single(choices=ch)
        if not (m1["violated"] and m1["class"] == v["class"] and m1["hash"] == m2["hash"]):
            errors.append("seed %d: the minimised schedule did not replay" % v["seed"]); continue
        k = match_known(known, m1["class"], m1["text"])
        if k: found_known.add(k["id"]); continue
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s_%s_%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["class"])[:60], m1["hash"][:8]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": v["seed"], "verif_seed": vseed, "class": m1["class"], "text": m1["text"], "hash": m1["hash"],
                       "choices": m1["choices"], "original_choices": len(d1["choices"]), "minimising_runs": nshr,
                       "faults": {k: n for k, n in m1["faults"].items() if n}, "history": m1["log"].split("\n")}, f, indent=1)
        reported.append({"class": m1["class"], "text": m1["text"], "replay": rp, "seed": v["seed"], "log": m1["log"]})
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in found_known else " (not met in this run)"))
    # evidence
    nt = set().union(*[d[".nt"] for d in res]); st = set().union(*[d[".st"] for d in res])
    faults = {}; probes = {}
    for d in res:
        for k, (off, fired) in d["faults"].items():
            f = faults.setdefault(k, {"offered": 0, "fired": 0}); f["offered"] += off; f["fired"] += fired
        for k, n in d["probes"].items(): probes[k] = probes.get(k, 0) + n
    tot = sum(d["runs"] for d in res); simns = sum(d["sim_ns"] for d in res)
    wall = max(max(d["wall"] for d in res), 1e-3)
    zero = [p for p in cfg.probes if not probes.get(p)]
    samples = [{"seed": d["sample_seed"], "history": d["sample"].split("\n")[:60]} for d in res[:3]]
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": cfg.level,
          "coverage": {"evaluations": tot, "distinct_nontrivial": len(nt), "rule": cfg.rule, "samples": samples,
            "simulated_runs": tot, "seeds_per_hour": int(tot / wall * 3600), "simulated_seconds": simns / 1e9,
            "operations": sum(d["ops"] for d in res), "events": sum(d["events"] for d in res), "decisions": sum(d["decisions"] for d in res),
            "distinct_states": len(st), "state_measure": cfg.states, "faults": faults, "probes": probes, "probes_at_zero": zero,
            "determinism_recheck_runs": chk, "real_components": cfg.real, "stub_components": cfg.stub, "workers": len(res),
            "build_s": round(tb, 2), "search_s": round(twall, 2), "known_findings_met": sorted(found_known), "gate_errors": errors},
          "assumptions": cfg.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s search, %.1f s build; faults fired: %s" % (prop, tier, tot, len(nt), twall, tb, {k: v["fired"] for k, v in faults.items() if v["fired"]}))
    if zero: print("probes at zero: %s" % zero)
    for r in reported:
        print("violation [%s] seed %d: %s" % (r["class"], r["seed"], r["text"]))
        if a.verbose: print(r["log"])
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    if reported: return 1
    if errors: die("violations that did not pass the gate: " + "; ".join(errors[:5]))
    return 0
if __name__ == "__main__": sys.exit(main())
