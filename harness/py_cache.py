"""P12 and P13: the session cache over successive processes with crashes and
disk faults, against a reference model of an LRU cache and of what the disk may hold."""
import os, sys, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim/py"); sys.path.insert(0, V + "/sim/py/stubs")
import pysim, simimport
from pysim import *
import om_pyrt
W = om_pyrt.World
MEM = {"capacity", "lru", "lookup", "bookkeeping", "victim", "operation-failed", "len", "membership"}
def vio(cls, text):
    mem = cls.split("-")[0] in {m.split("-")[0] for m in MEM}
    if (K.prop == "P12") != mem: raise RunEnd()
    fail(cls, text)
_f = pysim.fail
def libfail(cls, text): # found by the simulated library
    if K.prop == "P12": raise RunEnd()
    _f(cls, text)
om_pyrt.fail = libfail
class Version:
    def __init__(s, key, uid, idx, const): s.key, s.uid, s.idx, s.const = key, uid, idx, const
class Disk:
    """What a lookup may find for a key: 'may' = versions, none = nothing allowed too."""
    def __init__(s): s.may = {}; s.none = True; s.tainted = False
class Mem:
    """LRU reference: list of (key, value object), least recently used first."""
    def __init__(s, cap): s.cap, s.l = cap, []
    def copy(s): m = Mem(s.cap); m.l = list(s.l); return m
    def keys(s): return [k for k, _ in s.l]
    def has(s, k): return k in s.keys()
    def val(s, k): return dict(s.l)[k]
    def touch(s, k): e = (k, s.val(k)); s.l.remove(e); s.l.append(e)
    def drop(s, k): s.l = [e for e in s.l if e[0] != k]
    def put(s, k, v):
        s.drop(k)
        while s.l and len(s.l) >= s.cap: s.l.pop(0)
        if s.cap > 0: s.l.append((k, v))
class Run:
    def __init__(s):
        s.root = K.scratch; s.disk = {}; s.uid = 0; s.uids = {}; s.nkeys = rng_int(2, 6)
        s.keys = ["_om_" + "abcdef"[i] * (8 if chance(1, 2) else 4) for i in range(s.nkeys)]
        if chance(1, 4) and s.nkeys > 2: s.keys[1] = s.keys[0] + "x"
        if s.nkeys > 3 and chance(1, 4): s.keys[2] = s.keys[3][:-1]
        s.keys = list(dict.fromkeys(s.keys)); s.onnxdirs = 0; s.shared = None
    def d(s, k): return s.disk.setdefault(k, Disk())
    def life(s, n):
        newLife()
        s.cap = pick((0, 1, 1, 2, 2, 3, 3, 4, 5)) if n == 0 or chance(1, 4) else s.cap
        os.environ["TORCHONNXMLIR_CACHE_DIR"] = s.root + "/cache"
        if chance(1, 12): os.environ.pop("TORCHONNXMLIR_CACHE_DIR"); # then $HOME/.cache
        s.home = "TORCHONNXMLIR_CACHE_DIR" not in os.environ
        with Env():
            mod = simimport.fresh("torch_onnxmlir.sessioncache", True)
        s.mod = mod; ev("life %d capacity %d%s" % (n, s.cap, " default directory" if s.home else ""))
        if s.home: s.saved, s.disk = s.disk, getattr(s, "homedisk", {})
        try:
            f0 = K.fired
            try:
                with Sut(): s.c = mod.SessionCache(s.cap) if s.cap != 3 or chance(1, 2) else mod.SessionCache()
            except Crash: return
            except OSError as e:
                if K.fired == f0: vio("operation-failed", "creating the cache failed without a fault: %r" % e)
                return
            if FS.dead: return
            s.ms = [Mem(s.cap)]; s.vals = []
            for _ in range(rng_int(1, 14)):
                try: s.step()
                except Crash: pass
                if FS.dead: return
            ev("clean end")
        finally:
            K.sut = 0
            if s.home: s.homedisk, s.disk = s.disk, s.saved
    # -- helpers
    def filt(s, pred, cls, text):
        m = [x for x in s.ms if pred(x)]
        if not m: vio(cls, text + "; the reference cache holds %s (least recently used first, capacity %d)" % ([m.keys() for m in s.ms], s.cap))
        s.ms = m
    def check(s):
        c = s.c
        with Env():
            n = len(c)
            if n > s.cap: vio("capacity", "the cache holds %d entries, its capacity is %d" % (n, s.cap))
            inside = [k for k in s.keys if k in c]
            if len(inside) != n: vio("bookkeeping", "the cache says it holds %d entries and that it contains %s" % (n, inside))
        s.filt(lambda m: set(m.keys()) == set(inside), "lru", "the cache holds %s" % inside)
        state((s.cap, tuple(sorted(s.keys.index(k) for k in inside)), tuple(s.keys.index(k) for k in s.ms[0].keys()), tuple(sorted(len(d.may) + 8 * d.none for d in s.disk.values()))))
    def newSession(s, key):
        """A freshly compiled library in its own or in a shared working directory."""
        with Env():
            if s.shared is None or not chance(1, 4):
                wd = "%s/work%d" % (s.root, s.uid); pysim._REAL.mkdir(wd, 0o700)
                if chance(1, 6): s.shared = wd
            else: wd = s.shared; probe("shared working directory")
            s.uid += 1; uid = s.uid; const = "C%d-" % uid * rng_int(1, 400) if chance(1, 2) else None
            p = "%s/model%s.so" % (wd, key)
            try: os.unlink(p[:-3] + ".constants.bin")
            except OSError: pass
            om_pyrt.make_library(p, dict(uid=uid, tag=key, constants=const), const)
            if chance(1, 3): pysim._real_open("%s/model%s.onnx" % (wd, key), "w").write("onnx")
            W.loadfail = False
            sess = om_pyrt.InferenceSession(p, tag=key)
            W.loadfail = True
        idx = [i for i in range(rng_int(0, 5)) if chance(2, 3)]
        v = Version(key, uid, idx, const); s.uids[uid] = v
        return sess, v
    def step(s):
        k = pick(s.keys); f0 = K.fired; what = choose(12)
        if what <= 3: s.get(k)
        elif what <= 6: s.put(k, miss=chance(1, 2))
        elif what == 7:
            op("victim"); before = [m.copy() for m in s.ms]
            try:
                with Sut(): r = s.c.victim()
            except Exception as e: vio("operation-failed", "victim() failed: %r" % e)
            if FS.dead: raise Crash()
            full = len(before[0].l) >= s.cap
            for m in s.ms:
                m.want = len(m.l)
                if len(m.l) >= s.cap and m.l: m.want = m.l[0][0]; m.l.pop(0)
            if full and before[0].l: s.filt(lambda m: r == m.want, "victim", "victim() returned %r" % (r,)); probe("victim evicted")
        elif what == 8:
            op("remove %s" % k)
            try:
                with Sut(): s.c.remove(k)
            except Exception as e: vio("operation-failed", "remove() failed: %r" % e)
            for m in s.ms: m.drop(k)
        elif what == 9 and chance(1, 3):
            op("clear")
            try:
                with Sut(): s.c.clear()
            except Exception as e: vio("operation-failed", "clear() failed: %r" % e)
            for m in s.ms: m.l = []
        elif what == 10 and chance(1, 2): s.onnx(k)
        else:
            # lookup of a key never stored
            op("get unknown")
            try:
                with Sut(): r = s.c.get("_om_never")
            except Exception as e:
                if K.fired == f0: vio("lookup-failed", "looking up an unknown key failed: %r" % e)
                r = None
            if r: vio("lookup", "looking up a key never stored returned an entry")
        if FS.dead: raise Crash()
        s.check()
    def get(s, k):
        op("get %s" % k); f0 = K.fired; d = s.d(k); inmem = all(m.has(k) for m in s.ms)
        try:
            with Sut(): r = s.c.get(k)
        except Exception as e:
            if FS.dead: raise Crash()
            if K.fired == f0 or inmem: vio("disk-lookup-failed" if not inmem else "operation-failed", "looking up %s failed: %s: %s" % (k, type(e).__name__, e))
            for m in s.ms[:]: # the entry may or may not have been made room for
                if m.l and len(m.l) >= s.cap: m2 = m.copy(); m2.l.pop(0); s.ms.append(m2)
            return
        if FS.dead: raise Crash()
        if inmem:
            s.filt(lambda m: r is m.val(k), "lookup", "looking up %s returned %s, not the entry last stored" % (k, s.name(r)))
            for m in s.ms: m.touch(k)
            probe("memory hit"); return
        if not r:
            if not d.none and K.fired == f0: vio("disk-lost", "the model stored under %s is not found" % k)
            probe("miss")
            return
        # from disk
        probe("disk hit"); lib = getattr(r.sess, "lib", None)
        if lib is None or lib["uid"] not in s.uids: vio("disk-foreign", "looking up %s returned an unknown library" % k)
        v = s.uids[lib["uid"]]
        if v.key != k: vio("disk-foreign", "looking up %s returned the model of %s" % (k, v.key))
        if v.uid not in d.may: vio("disk-stale", "looking up %s returned version %d, which is not the one stored (%s)" % (k, v.uid, sorted(d.may)))
        if list(r.example_inputs_indices) != v.idx: vio("disk-mixed", "looking up %s returned version %d with the input selection %s, stored with %s" % (k, v.uid, r.example_inputs_indices, v.idx))
        if r.tag != k: vio("disk-mixed", "the entry found for %s has tag %r" % (k, r.tag))
        with Env():
            try: r.sess._constants()
            except RuntimeError as e: vio("disk-incomplete", "the entry found for %s cannot run: %s" % (k, e))
        for m in s.ms: m.put(k, r)
        # what was found is complete: later lookups find the same one
        if not d.tainted: d.may = {v.uid: 1}; d.none = False
    def name(s, r):
        if r is None: return "nothing"
        try: return "version %s of %s" % (r.sess.lib["uid"], s.uids[r.sess.lib["uid"]].key)
        except Exception: return repr(r)
    def put(s, k, miss):
        if miss: # the way the backend uses the cache
            s.get(k)
            if FS.dead: raise Crash()
            s.check()
        f0 = K.fired; again = None
        if chance(1, 8): # store again a value that was looked up
            l = [e for e in s.ms[0].l if len(s.ms) == 1]
            if l: again = pick(l)
            with Env():
                b = again and om_pyrt.read_library(again[1].sess.path) if again and os.path.isfile(again[1].sess.path) else None
            if not b or b["uid"] != again[1].sess.lib["uid"]: again = None
        if again: k, val = again; v = s.uids[val.sess.lib["uid"]]; probe("re-store of a looked-up entry")
        else:
            sess, v = s.newSession(k); val = s.mod.CacheValue(tag=k, sess=sess, example_inputs_indices=list(v.idx))
        d = s.d(k); disk = True
        if not again and not d.may and d.none and chance(1, 6): disk = False
        op("put %s version %d%s%s" % (k, v.uid, "" if disk else " (memory only)", " with constants" if v.const else ""))
        if disk: old = dict(d.may); d.may[v.uid] = 1; d.none_before, d.none = d.none, True
        try:
            with Sut():
                if disk: s.c.put(k, val)
                else: s.c.put(k, val, False)
        except Exception as e:
            if FS.dead: raise Crash()
            if K.fired == f0: vio("operation-failed", "storing %s failed: %s: %s" % (k, type(e).__name__, e))
            ev("put raised %s" % type(e).__name__); probe("put raised")
            alts = []
            for m in s.ms:
                alts.append(m.copy())
                a = m.copy(); a.put(k, val); alts.append(a)
                a = m.copy(); a.drop(k); alts.append(a)
                a = m.copy()
                if a.l and len(a.l) >= s.cap: a.l.pop(0); alts.append(a)
            s.ms = alts
            return
        if FS.dead: raise Crash()
        for m in s.ms: m.put(k, val)
        if disk:
            if K.fired == f0: d.may = {v.uid: 1}; d.none = False; d.tainted = False
            else: d.may = {**old, v.uid: 1}; d.none = True # an error was absorbed
        probe("stored")
    def onnx(s, k):
        with Env():
            s.onnxdirs += 1; wd = "%s/onnx%d" % (s.root, s.onnxdirs); pysim._REAL.mkdir(wd, 0o700)
            for n in ("model%s.onnx" % k, "model%s.onnx_data" % k, "other.txt"):
                if chance(2, 3): pysim._real_open(wd + "/" + n, "w").write("onnx" * 30)
        f0 = K.fired; op("write_onnx_to_disk %s" % k)
        try:
            with Sut(): s.c.write_onnx_to_disk(k, wd)
        except Exception as e:
            if FS.dead: raise Crash()
            if K.fired == f0: vio("operation-failed", "write_onnx_to_disk failed: %r" % e)
def run():
    faultKinds(pysim.KINDS + ["session-load-fails"])
    pysim._REAL.mkdir(K.scratch + "/home", 0o700)
    s = Run(); s.cap = 3
    if chance(1, 3): pysim._REAL.mkdir(K.scratch + "/cache", 0o700)
    n = rng_int(1, 5)
    for i in range(n):
        crash = K.fired
        s.life(i)
        if FS.dead: probe("restart after crash")
        FS.dead = False
    # faults stop: a last process finds every stored model
    armed = K.armed; K.armed = False; ev("faults stop"); newLife()
    os.environ["TORCHONNXMLIR_CACHE_DIR"] = K.scratch + "/cache"
    s.cap = len(s.keys) + 1; s.mod = simimport.fresh("torch_onnxmlir.sessioncache", True)
    with Sut(): s.c = s.mod.SessionCache(s.cap)
    s.ms = [Mem(s.cap)]
    for k in s.keys: s.get(k); s.check()
    for k in s.keys: s.put(k, False); s.check()
    for k in s.keys: s.get(k)
    newLife(); s.mod = simimport.fresh("torch_onnxmlir.sessioncache", True)
    with Sut(): s.c = s.mod.SessionCache(s.cap)
    s.ms = [Mem(s.cap)]
    for k in s.keys: s.get(k); s.check()
pysim.main(run, simimport.warm)
