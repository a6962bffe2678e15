"""Content-hashed incremental builder: compiles harness + repository sources into /verif/build."""
import hashlib, json, os, shlex, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
class BuildError(Exception): pass
def sha(b): return hashlib.sha256(b).hexdigest()
_fh = {}
def fhash(p):
    try:
        st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
        if k not in _fh:
            with open(p, "rb") as f: _fh[k] = sha(f.read())
        return _fh[k]
    except OSError: return "absent"
def parse_deps(path):
    with open(path) as f: t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [d for d in t.split() if not d.startswith("/usr/")]
def compile_one(job):
    src, obj, cmd = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    meta = obj + ".meta"; full = cmd + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    base = sha("\0".join(full).encode())
    try:
        m = json.load(open(meta))
        if m["cmd"] == base and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"]): return False
    except Exception: pass
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("compilation of %s failed:\n%s\n%s" % (src, " ".join(map(shlex.quote, full)), r.stdout[-6000:]))
    deps = [[p, fhash(p)] for p in parse_deps(obj + ".d")]
    with open(meta, "w") as f: json.dump({"cmd": base, "deps": deps}, f)
    return True
def build(spec):
    """spec: dict(name, units=[(src, [flags])...], link=[...], cxx='g++')"""
    out = os.path.join(BUILD, spec["name"]); os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, objs = [], []
        for u in spec["units"]:
            src, flags = u[0], u[1]
            comp = u[2] if len(u) > 2 else spec.get("cc", "gcc") if src.endswith(".c") else spec.get("cxx", "g++")
            obj = os.path.join(out, sha((src + " ".join(flags) + (comp if len(u) > 2 else "")).encode())[:10] + "_" + os.path.basename(src) + ".o")
            jobs.append((src, obj, [comp] + flags)); objs.append(obj)
        with ThreadPoolExecutor(8) as ex: changed = any(list(ex.map(compile_one, jobs)))
        exe = os.path.join(out, spec.get("exe", "harness"))
        link = [spec.get("cxx", "g++")] + objs + ["-o", exe] + spec["link"]
        key = sha("\0".join(link).encode() + "".join(fhash(o) for o in objs).encode())
        km = exe + ".key"
        if changed or not os.path.exists(exe) or not os.path.exists(km) or open(km).read() != key:
            r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError("link failed:\n" + r.stdout[-6000:])
            with open(km, "w") as f: f.write(key)
        return exe
