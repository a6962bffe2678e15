"""Deterministic simulation kit for the Python code: the same command line,
choice recording, fault plans and result files as sim/simkit.cpp.

A run is a forked child. A simulated process ("life") executes the real code
in the run's process with every operating-system effect behind the wrappers
below; at its crash point the wrapper raises Crash and from then on no effect
of that life reaches the disk, exactly as if the process had been ended: data
still in Python's buffers is lost, data already written stays.
"""
import builtins, errno as E, gc, io, json, os, random as _random, resource, shutil, signal, stat, struct, sys, tempfile, time as _time
import _io
M64 = (1 << 64) - 1
class Crash(BaseException): pass
class Violation(BaseException): pass
class RunEnd(BaseException): pass
# ---- random numbers, choices, faults
def splitmix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64; z = x
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return x, z ^ (z >> 31)
class Rng:
    def __init__(self, seed): self.x = seed & M64
    def next(self):
        self.x, z = splitmix(self.x); return z
class Kit: pass
K = Kit()
def reset(seed, rep=None):
    K.rng = Rng(seed); K.frng = Rng(seed ^ 0xdeadbeefcafef00d); K.rep = rep; K.ch = []; K.log = []; K.loglen = 0; K.hash = 1469598103934665603
    K.nev = K.ops = K.ns = 0; K.faults = {}; K.probes = {}; K.states = set(); K.fired = 0; K.violated = False; K.cls = K.text = ""
    K.armed = False; K.sut = 0; K.plan = (0, 0, 1, set()); K.count = 0; K.discarded = False
def _record(v):
    if len(K.ch) > 60000: fail("hang", "more than 60000 decisions in one run")
    K.ch.append(v); return v
def _replayed(n):
    i = len(K.ch); v = K.rep[i] if i < len(K.rep) else 0
    return min(v, n - 1)
def choose(n):
    if n <= 1: return 0
    return _record(_replayed(n) if K.rep is not None else K.rng.next() % n)
def chance(a, b): return bool(_record(_replayed(2) if K.rep is not None else int(K.rng.next() % b < a)))
def rng_int(lo, hi): return lo + choose(hi - lo + 1)
def pick(seq): return seq[choose(len(seq))]
def faultKinds(kinds):
    r = K.frng; m = r.next() % 100
    mode = 0 if m < 20 else 1 if m < 60 else 2
    nth = r.next() % (4, 10, 30, 80, 200)[r.next() % 5]; den = (2, 4, 8, 20, 50, 120)[r.next() % 6]
    every = r.next() % 3 == 0; mask = r.next()
    en = {k for i, k in enumerate(kinds) if mode == 1 or every or (mask >> (i % 64)) & 1}
    if mode == 1 and kinds and r.next() % 2: en = {kinds[r.next() % len(kinds)]}; nth //= 3
    K.plan = (mode, nth, den, en); K.count = 0; K.armed = True
def fault(kind):
    if not K.armed or not K.sut: return False
    f = K.faults.setdefault(kind, [0, 0]); f[0] += 1
    if K.rep is not None: v = _replayed(2)
    else:
        mode, nth, den, en = K.plan; v = 0
        if kind in en:
            if mode == 1: v = int(K.count == nth); K.count += 1
            elif mode == 2: v = int(K.frng.next() % den == 0)
    _record(v)
    if v: f[1] += 1; K.fired += 1; ev("FAULT " + kind)
    return bool(v)
import re as _re, hashlib as _hl
_LONG = _re.compile(r"_om_[a-z0-9]{40,}")
def ev(s):
    if K.scratch in s: s = s.replace(K.scratch, "")
    if "_om_" in s: s = _LONG.sub(lambda m: "_om_" + _hl.md5(m.group().encode()).hexdigest()[:6], s)
    b = (s + "\n").encode("utf8", "backslashreplace"); h = K.hash
    import hashlib
    h = int.from_bytes(hashlib.blake2b(h.to_bytes(8, "little") + b, digest_size=8).digest(), "little")
    K.hash = h; K.nev += 1
    if K.loglen < 60000: K.log.append(s); K.loglen += len(b)
def op(s): K.ops += 1; ev(s)
def probe(n): K.probes[n] = K.probes.get(n, 0) + 1
def state(s):
    import hashlib
    if len(K.states) < 400: K.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).digest())
def fail(cls, text):
    K.armed = False
    if not K.violated:
        text = _LONG.sub(lambda m: "_om_" + _hl.md5(m.group().encode()).hexdigest()[:6], text.replace(K.scratch, ""))
        K.violated, K.cls, K.text = True, cls[:60], text[:1500]; ev("VIOLATION %s: %s" % (K.cls, K.text))
    raise Violation()
class Sut:
    def __enter__(self): K.sut += 1
    def __exit__(self, *a): K.sut -= 1
class Env:
    def __enter__(self): self.p = K.sut; K.sut = 0
    def __exit__(self, *a): K.sut = self.p
# ---- the file system behind a seam
class FS: dead = False; steps = 0; nameseq = 0; clock = 0
_real = {}
def _under(p):
    try: p = os.fsdecode(os.fspath(p))
    except TypeError: return False
    return p.startswith(K.scratch)
def rel(p):
    try: p = os.fsdecode(os.fspath(p))
    except TypeError: return str(p)
    return p.replace(K.scratch, "") or "/"
def die():
    FS.dead = True; ev("CRASH"); raise Crash()
def _pre(name, *paths):
    """Before an effect: the process may die here or the call may fail."""
    if FS.dead: raise Crash()
    if not K.sut: return
    FS.steps += 1
    if FS.steps > 20000: fail("hang", "more than 20000 file operations in one life")
    if fault("crash-before-" + CR.get(name, "call")): die()
    k = "disk-" + name
    if fault(k):
        e = pick(ERR.get(name, (E.EIO, E.ENOSPC))); raise OSError(e, os.strerror(e), *paths[:1])
def _post(name):
    if K.sut and fault("crash-after-" + CR.get(name, "call")): die()
CR = {"write": "write", "open": "open", "rename": "rename", "replace": "rename"}
ERR = {"mkdir": (E.ENOSPC, E.EACCES, E.EROFS), "rename": (E.ENOSPC, E.EIO, E.EACCES), "replace": (E.ENOSPC, E.EIO, E.EACCES), "open": (E.EMFILE, E.ENOSPC, E.EACCES),
       "read": (E.EIO,), "listdir": (E.EIO, E.EMFILE), "unlink": (E.EACCES, E.EIO), "rmdir": (E.EACCES,), "meta": (E.EPERM, E.EIO), "write": (E.ENOSPC, E.EIO, E.EDQUOT)}
KINDS = ["crash-before-call", "crash-after-call", "crash-before-write", "crash-mid-write", "crash-after-write", "crash-before-open", "crash-after-open", "crash-before-rename", "crash-after-rename",
         "disk-mkdir", "disk-rename", "disk-replace", "disk-open", "disk-write", "disk-short-write", "disk-unlink", "disk-meta", "disk-listdir", "disk-read"]
def _wrap(name, kind, npaths=1):
    f = getattr(os, name, None)
    if f is None: return
    _real[name] = f
    def w(*a, **k):
        if FS.dead: raise Crash()
        if not K.sut: return f(*a, **k)
        _pre(kind, *a[:npaths]); r = f(*a, **k)
        ev("%s %s" % (name, " ".join(rel(x) for x in a[:npaths] if isinstance(x, (str, bytes, os.PathLike)))))
        _post(kind); return r
    w.__name__ = name; setattr(os, name, w)
    if hasattr(f, "__self__") or True:
        for s in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if f in s: s.add(w)
def _data_write(real, data):
    """A write of data: all, a part and death, a part and an error, or an error."""
    n = len(data)
    if FS.dead: raise Crash()
    if not K.sut: return real(data)
    _pre("write")
    if n > 1 and fault("crash-mid-write"): real(bytes(data)[:rng_int(1, n - 1)]); die()
    if n > 1 and fault("disk-short-write"):
        r = real(bytes(data)[:rng_int(1, n - 1)]); return r
    r = real(data); _post("write"); return r
class SimFileIO(_io.FileIO):
    def write(self, b): return _data_write(super().write, memoryview(b).cast("B"))
    def truncate(self, *a):
        _pre("meta"); return super().truncate(*a)
    def _rd(self):
        if FS.dead: raise Crash()
        if K.sut and fault("disk-read"): raise OSError(E.EIO, os.strerror(E.EIO))
    def readinto(self, b): self._rd(); return super().readinto(b)
    def read(self, *a): self._rd(); return super().read(*a)
    def readall(self): self._rd(); return super().readall()
_real_open = _io.open
def _opener(path, flags):
    return _real["open"](path, flags, 0o666)
def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if FS.dead: raise Crash()
    if not K.sut: return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    created = any(c in mode for c in "wxa")
    if not isinstance(file, int) and opener is None:
        if created or "+" in mode: _pre("open", file)
        elif fault("disk-open"):
            e = pick((E.EMFILE, E.EIO)); raise OSError(e, os.strerror(e), file)
        op_ = _opener
    else: op_ = opener
    raw = SimFileIO(file, raw_mode, closefd, op_)
    if not isinstance(file, int):
        ev("open %s %s" % (rel(file), mode))
        if created: _post("open")
    if "b" in mode and buffering == 0: return raw
    size = buffering if buffering > 1 else 8192
    if "+" in mode: buf = _io.BufferedRandom(raw, size)
    elif created: buf = _io.BufferedWriter(raw, size)
    else: buf = _io.BufferedReader(raw, size)
    if "b" in mode: return buf
    t = _io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1); t.mode = mode
    return t
class Rand:
    """Deterministic stand-in for tempfile's name generator."""
    def __iter__(self): return self
    def __next__(self):
        FS.nameseq += 1; return "%08x" % (FS.nameseq * 2654435761 & 0xffffffff)
def install():
    for n, k, p in [("mkdir", "mkdir", 1), ("rename", "rename", 2), ("replace", "replace", 2), ("remove", "unlink", 1), ("unlink", "unlink", 1), ("rmdir", "rmdir", 1),
                    ("link", "meta", 2), ("symlink", "meta", 2), ("utime", "meta", 1), ("chmod", "meta", 1), ("chown", "meta", 1), ("truncate", "meta", 1), ("ftruncate", "meta", 1),
                    ("setxattr", "meta", 1), ("fsync", "meta", 1), ("fdatasync", "meta", 1)]: _wrap(n, k, p)
    ro = os.open; _real["open"] = ro
    def w_open(path, flags, mode=0o777, *, dir_fd=None):
        if FS.dead: raise Crash()
        if not K.sut: return ro(path, flags, mode, dir_fd=dir_fd)
        wr = flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR)
        if wr: _pre("open", path)
        fd = ro(path, flags, mode, dir_fd=dir_fd)
        if wr: ev("os.open %s" % rel(path)); _post("open")
        return fd
    os.open = w_open; os.supports_dir_fd.add(w_open)
    rw = os.write; os.write = lambda fd, b: _data_write(lambda d: rw(fd, d), memoryview(b).cast("B"))
    if hasattr(os, "sendfile"):
        def nosend(*a, **k): raise OSError(E.EINVAL, "sendfile not simulated")
        os.sendfile = nosend
    if hasattr(os, "copy_file_range"):
        def nocfr(*a, **k): raise OSError(E.ENOSYS, "not simulated")
        os.copy_file_range = nocfr
    shutil._USE_CP_SENDFILE = False
    for n in ("_USE_CP_COPY_FILE_RANGE",):
        if hasattr(shutil, n): setattr(shutil, n, False)
    shutil._use_fd_functions = False; shutil.rmtree.avoids_symlink_attacks = False
    rl = os.listdir
    def w_listdir(path="."):
        if FS.dead: raise Crash()
        if not K.sut: return sorted(rl(path))
        if fault("disk-listdir"): e = pick(ERR["listdir"]); raise OSError(e, os.strerror(e), path)
        names = sorted(rl(path))
        for i in range(len(names) - 1): # the order of a directory is unspecified
            j = i + choose(len(names) - i)
            names[i], names[j] = names[j], names[i]
        return names
    os.listdir = w_listdir
    rs = os.scandir
    class SD:
        def __init__(self, path):
            with rs(path) as it: self.l = sorted(it, key=lambda e: e.name)
            self.i = iter(self.l)
        def __iter__(self): return self
        def __next__(self): return next(self.i)
        def close(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    def w_scandir(path="."):
        if FS.dead: raise Crash()
        if not K.sut: return rs(path)
        if fault("disk-listdir"): e = pick(ERR["listdir"]); raise OSError(e, os.strerror(e), path)
        return SD(path)
    os.scandir = w_scandir
    for n in ("stat", "lstat"):
        def mk(f):
            def w(*a, **k):
                if FS.dead: raise Crash()
                return f(*a, **k)
            return w
        f = getattr(os, n); w = mk(f); setattr(os, n, w)
        for s in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks):
            if f in s: s.add(w)
    builtins.open = sim_open; io.open = sim_open
    tempfile._get_candidate_names = lambda: Rand()
    os.getpid = lambda: 4242 + FS.nameseq // 1000000
    def urandom(n): FS.nameseq += 1; return (b"%016x" % FS.nameseq * (n // 16 + 1))[:n]
    os.urandom = urandom; _random._urandom = urandom
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        def clk(): FS.clock += 1000; return 1.7e9 + FS.clock * 1e-9
        setattr(_time, n, clk)
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        def clkn(): FS.clock += 1000; return 1700000000000000000 + FS.clock
        setattr(_time, n, clkn)
    def sleep(s): FS.clock += int(s * 1e9); K.ns += int(s * 1e9)
    _time.sleep = sleep
    _random.seed(1)
    sys.unraisablehook = lambda *a: None
def newLife():
    FS.dead = False; FS.steps = 0; FS.nameseq = (FS.nameseq // 1000000 + 1) * 1000000; _random.seed(FS.nameseq)
    tempfile._once_lock = tempfile._once_lock; tempfile.tempdir = K.scratch + "/tmp"
# ---- running
def wipe(d):
    for n in _REAL.listdir(d):
        p = d + "/" + n
        if stat.S_ISDIR(_REAL.lstat(p).st_mode): wipe(p); _REAL.rmdir(p)
        else: _REAL.unlink(p)
class _REAL: listdir, lstat, rmdir, unlink, mkdir, fork, waitpid, pipe, read, write, close, _exit = os.listdir, os.lstat, os.rmdir, os.unlink, os.mkdir, os.fork, os.waitpid, os.pipe, os.read, os.write, os.close, os._exit
clock0 = _time.monotonic
def oneRun(seed, rep, run, verbose):
    wipe(K.scratch); r, w = _REAL.pipe(); pid = _REAL.fork()
    if pid == 0:
        _REAL.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (20, 21)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not verbose:
                n = _REAL_OPEN("/dev/null", os.O_RDWR)
                for f in (0, 1, 2): os.dup2(n, f)
            reset(seed, rep); ev("start"); gc.disable() # finalizers of cycles would run at points that depend on earlier allocations
            FS.nameseq = 0; _REAL.mkdir(K.scratch + "/tmp", 0o700)
            try: run()
            except Violation: pass
            except RunEnd: pass
            except Crash: pass
            except BaseException as e:
                import traceback
                t = traceback.format_exc()
                try: fail("harness-" + type(e).__name__, t[-1200:])
                except Violation: pass
            d = {k: getattr(K, k) for k in ("violated", "cls", "text", "ch", "nev", "ops", "ns", "faults", "probes", "fired", "discarded")}
            d["hash"] = K.hash; d["log"] = "\n".join(K.log); d["states"] = [s.hex() for s in K.states]
            b = json.dumps(d).encode(); o = 0
            while o < len(b): o += _REAL.write(w, b[o:o + 65536])
        finally: _REAL._exit(0)
    _REAL.close(w); parts = []
    while True:
        b = _REAL.read(r, 1 << 16)
        if not b: break
        parts.append(b)
    _REAL.close(r); _, st = _REAL.waitpid(pid, 0)
    try: d = json.loads(b"".join(parts))
    except ValueError:
        d = dict(violated=True, cls="process-died", text="the run ended with status %d" % st, ch=[], nev=0, ops=0, ns=0, faults={}, probes={}, fired=0, discarded=False, hash=st, log="", states=[])
    return d
_REAL_OPEN = os.open
def main(run, warm=None):
    import argparse
    ap = argparse.ArgumentParser()
    for n in ("prop", "out", "tmp", "replay"): ap.add_argument("--" + n)
    for n in ("seed", "base", "start", "stride", "runs"): ap.add_argument("--" + n, type=int)
    ap.add_argument("--time", type=float, default=10); ap.add_argument("--batch", action="store_true"); ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(); K.prop = a.prop; K.verbose = a.verbose
    sys.setrecursionlimit(3000)
    K.scratch = "%s/p%05d" % (a.tmp, (a.start or 0) % 100000)
    if os.access("/dev/shm", os.W_OK): K.scratch = "/dev/shm/" + K.scratch[1:].replace("/", "_") # memory-backed: faster
    _REAL.mkdir(K.scratch, 0o700)
    os.environ["HOME"] = K.scratch + "/home"; os.environ["TMPDIR"] = K.scratch + "/tmp"
    if warm: warm()
    out = _real_open(a.out, "w")
    install(); gc.collect(); gc.freeze()
    try:
        if not a.batch:
            rep = None
            if a.replay: rep = [int(x) for x in _real_open(a.replay).read().split()]
            d = oneRun(a.seed or 0, rep, run, a.verbose)
            json.dump({"seed": a.seed or 0, "violated": int(d["violated"]), "class": d["cls"], "text": d["text"], "hash": "%016x" % d["hash"], "ops": d["ops"], "sim_ns": d["ns"],
                       "choices": d["ch"], "faults": {k: v[1] for k, v in d["faults"].items()}, "log": d["log"]}, out); out.close()
            return
        t0 = clock0(); i = a.start; n = 0; V = []; per = {}; T = dict(sim_ns=0, ops=0, events=0, decisions=0, discarded=0); fk = {}; pr = {}; hs = set(); nt = set(); st = set(); hsum = 0; nv = 0
        sample = ""; sseed = 0
        while n < a.runs and clock0() - t0 < a.time:
            x = (a.base * 0x9e3779b97f4a7c15 + i * 0xd1342543de82ef95 + 12345) & M64; sd = splitmix(x)[1]
            d = oneRun(sd, None, run, False); n += 1
            T["sim_ns"] += d["ns"]; T["ops"] += d["ops"]; T["events"] += d["nev"]; T["decisions"] += len(d["ch"]); T["discarded"] += d["discarded"]
            hsum = (hsum + splitmix((d["hash"] ^ (i * 0x9e3779b97f4a7c15)) & M64)[1]) & M64
            for k, v in d["faults"].items(): f = fk.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
            for k, v in d["probes"].items(): pr[k] = pr.get(k, 0) + v
            st.update(bytes.fromhex(s) for s in d["states"])
            h = d["hash"].to_bytes(8, "little"); hs.add(h)
            if d["ops"] >= 2 or d["fired"]: nt.add(h)
            if not sample or (d["fired"] and not d["violated"] and len(sample) < len(d["log"]) < 6000 and n < 500): sample, sseed = d["log"][:6000], sd
            if d["violated"]:
                nv += 1; per[d["cls"]] = per.get(d["cls"], 0) + 1
                if per[d["cls"]] <= 4: V.append({"index": i, "seed": sd, "nch": len(d["ch"]), "class": d["cls"], "text": d["text"]})
                if nv >= 400: break
            i += a.stride
        json.dump(dict(violations=V, runs=n, nviol=nv, hashsum="%016x" % hsum, wall=clock0() - t0, distinct=len(hs), faults=fk, probes=pr, sample_seed=sseed, sample=sample, **T), out); out.close()
        for suf, s in ((".nt", nt), (".st", st)):
            with _real_open(a.out + suf, "wb") as f: f.write(b"".join(sorted(s)))
    finally: wipe(K.scratch); _REAL.rmdir(K.scratch)
