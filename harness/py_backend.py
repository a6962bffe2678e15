"""P21: the PyTorch backend over several graphs, shapes and processes, with
exports, compilations, loads and disk operations failing; every answer is
compared with the original computation of that very graph."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim/py"); sys.path.insert(0, V + "/sim/py/stubs")
import copy, operator
import pysim, simimport
from pysim import *
import om_pyrt, torch
from torch import _fx, Tensor, SymInt, FakeTensor, Parameter
W = om_pyrt.World
SY = {"s0": 3, "s1": 4}
# ---- graphs: a specification is plain data, so that a variant is a small edit
def new_spec():
    sp = {"in": [], "ops": [], "par": {}, "buf": {}, "out": []}
    names = ["l_x_", "l_y_", "l_z_", "l_w_"]; n = rng_int(1, 3)
    sym = chance(1, 2)
    if sym and chance(1, 3): sp["in"].append(["s0", "symint", "s0"])
    for i in range(n):
        r = rng_int(1, 2); sp["in"].append([names[i], "tensor", [pick(("s0", "s1", 2, 3)) if sym else rng_int(2, 3) for _ in range(r)]])
    if chance(1, 5): sp["in"].append(["l_eps_", "scalar", rng_int(1, 9)])
    if chance(1, 6): sp["in"].append(["l_n_", "itensor", None])
    if chance(1, 4): sp["in"].insert(rng_int(0, len(sp["in"])), ["l_unused_", "tensor", [2]])
    for i in range(pick((0, 0, 1, 1, 2))):
        k = pick(("par", "buf")); nm = pick(("w%d" % i, "self_layer%d_weight" % i, "mod.sub.w%d" % i))
        sp[k][nm] = [rng_int(0, 9) for _ in range(rng_int(1, 6))]
    vals = [x[0] for x in sp["in"] if x[1] == "tensor" and x[0] != "l_unused_"]
    for x in sp["in"]:
        if x[1] == "symint": sp["ops"].append(["v%d" % len(sp["ops"]), "fn", "mul" if chance(1, 2) else "add", [vals[0], "$" + x[0]], {}])
        if x[1] == "scalar":
            sp["ops"].append(["item_eps", "meth", "item", ["$" + x[0]], {}]); sp["ops"].append(["ve", "fn", "add", ["$" + vals[-1], "$item_eps"], {}]); vals.append("ve")
        if x[1] == "itensor":
            sp["ops"].append(["item_n", "meth", "item", ["$" + x[0]], {}]); sp["ops"].append(["ss", "fn", "sym_sum", [[1, "$item_n"]], {}]); sp["ops"].append(["vn", "fn", "add", ["$" + vals[-1], "$ss"], {}]); vals.append("vn")
    for o in sp["ops"]: o[3] = [("$" + a if isinstance(a, str) and a in vals and not a.startswith("$") else a) for a in o[3]]
    for o in sp["ops"]:
        if o[0].startswith("v") and o[0] not in vals: vals.append(o[0])
    for k in ("par", "buf"):
        for nm in sp[k]: i = len(sp["ops"]); sp["ops"].append(["v%d" % i, "fn", pick(("add", "mul", "sub")), ["$" + pick(vals), "@" + nm], {}]); vals.append("v%d" % i)
    for _ in range(rng_int(1, 4)):
        i = len(sp["ops"]); v = "v%d" % i; a, b, c = "$" + pick(vals), "$" + pick(vals), "$" + pick(vals); k = choose(9)
        if k == 0: o = [v, "fn", pick(("add", "sub", "mul")), [a, b], {}]
        elif k == 1: o = [v, "fn", pick(("add", "mul", "sub")), [a, rng_int(1, 3)], {}]
        elif k == 2: o = [v, "fn", "cumsum", [a], {"dim": rng_int(0, 1)}] if chance(1, 2) else [v, "fn", "cumsum", [a, rng_int(0, 1)], {}]
        elif k == 3: o = [v, "meth", pick(("relu", "neg", "cumsum")), [a], {}]
        elif k == 4: o = [v, "fn", "where3", [a, b, c], {}]
        elif k == 5: o = [v, "fn", "add", [a, b], {"alpha": rng_int(1, 3)}]
        elif k == 6: o = [v, "aten", pick(("add", "sub", "mul")), [a, b], {}]
        elif k == 7: sp["ops"].append(["t%d" % i, "fn", "split2", [a], {}]); o = [v, "get", None, ["$t%d" % i, choose(2)], {}]
        else: o = [v, "fn", pick(("relu", "neg")), [a], {}]
        sp["ops"].append(o); vals.append(v)
    used = {a[1:] for o in sp["ops"] for a in _flat(o[3]) if isinstance(a, str)}
    outs = [o[0] for o in sp["ops"] if o[0] not in used and o[0].startswith("v")]
    sp["out"] = outs or [vals[-1]]
    if chance(1, 4): sp["out"] = sp["out"] + [pick(vals)]
    return sp
def _flat(l): return [y for x in l for y in _flat(x)] if isinstance(l, list) else [l]
def variant(sp, limit):
    """A graph that differs in one respect."""
    import copy
    s = copy.deepcopy(sp); ops = [o for o in s["ops"] if o[0].startswith(("v", "t")) or o[1] == "get"]
    for _ in range(6):
        k = choose(14)
        consts = [(o, i) for o in ops for i, a in enumerate(o[3]) if isinstance(a, int)]
        if k == 0 and consts: o, i = pick(consts); o[3][i] = (o[3][i] + 1) % (2 if o[1] == "get" or o[2] == "cumsum" else 5); return s, "constant"
        if k == 1:
            l = [o for o in ops if len(o[3]) > 1 and all(isinstance(a, str) for a in o[3][:2]) and o[3][0] != o[3][1]]
            if l: o = pick(l); o[3][0], o[3][1] = o[3][1], o[3][0]; return s, "argument order"
        if k == 2:
            l = [o for o in ops if o[4]]
            if l: o = pick(l); q = pick(sorted(o[4])); o[4][q] = 1 - o[4][q] if q == "dim" else o[4][q] + 1; return s, "keyword"
        if k == 3:
            l = [o for o in ops if o[1] == "meth"]
            if l: o = pick(l); o[2] = "neg" if o[2] != "neg" else "relu"; return s, "method"
        if k == 4:
            l = [o for o in ops if o[1] in ("fn", "aten") and o[2] in ("add", "sub", "mul") and not o[4]]
            if l: o = pick(l); o[2] = {"add": "sub", "sub": "mul", "mul": "add"}[o[2]]; return s, "operator"
        if k == 5 and len(s["in"]) > 1: i = choose(len(s["in"]) - 1); s["in"][i], s["in"][i + 1] = s["in"][i + 1], s["in"][i]; return s, "input order"
        if k in (6, 7):
            l = [(q, n) for q in ("par", "buf") for n in sorted(s[q])]
            if l:
                q, n = pick(l); v = s[q][n]; i = 0 if k == 6 else min(len(v), limit) - 1
                if len(v) > limit and chance(1, 60): i = len(v) - 1; probe("parameter value beyond the sampled ones")
                v[i] += 1
                return s, "parameter value"
        if k == 8: s["out"] = s["out"] + [s["out"][0]] if chance(1, 2) or len(s["out"]) < 2 else s["out"][::-1]; return s, "outputs"
        if k == 9:
            l = [x for x in s["in"] if x[1] == "scalar"]
            if l: l[0][2] += 1; return s, "frozen scalar"
        if k == 10: # another input is the unused one
            t = [x for x in s["in"] if x[1] == "tensor"]
            if len(t) > 1 and any(x[0] == "l_unused_" for x in t):
                i = next(i for i, x in enumerate(s["in"]) if x[0] == "l_unused_"); x = s["in"].pop(i); s["in"].insert((i + 1 + choose(len(s["in"]))) % (len(s["in"]) + 1), x); return s, "unused input"
        if k == 11:
            l = [x for x in s["in"] if x[1] == "tensor" and x[2]]
            x = pick(l); i = choose(len(x[2])); x[2][i] = 2 if x[2][i] in (3, "s0", "s1") else 3; return s, "dimension"
        if k == 12: # the same dimensions, equal to others or not
            l = [(x, i) for x in s["in"] if x[1] == "tensor" for i, d in enumerate(x[2]) if isinstance(d, str)]
            if l: x, i = pick(l); x[2][i] = "s1" if x[2][i] == "s0" else "s0"; return s, "symbol"
        if k == 13:
            x = pick([x for x in s["in"] if x[1] == "tensor"]); x[3:] = [] if len(x) > 3 else ["int64"]; return s, "type"
    return s, "none"
def build(sp):
    """What Dynamo would hand to the backend."""
    g = _fx.Graph(); env = {}; root = {}
    syms = {n: SymInt(n, v) for n, v in SY.items()}
    for name, kind, x, *ty in sp["in"]:
        n = g.placeholder(name); env[name] = n
        if kind == "symint": n.type = SymInt; n.meta["example_value"] = syms[x]
        else:
            n.type = Tensor
            sh = [syms.get(d, d) for d in x] if kind == "tensor" else [] if kind == "scalar" else [1]
            t = FakeTensor([], sh, torch.int64 if kind == "itensor" or ty else torch.float32); n.meta["example_value"] = t
            if kind == "itensor": n.meta["tensor_meta"] = {"shape": (1,), "dtype": torch.int64}
    gm = _fx.GraphModule({}, g)
    for q in ("par", "buf"):
        for nm, v in sp[q].items():
            m = gm; *path, leaf = nm.split(".")
            for p in path:
                if p not in m._modules: m._modules[p] = torch.Module()
                m = m._modules[p]
            if q == "par": m._parameters[leaf] = Parameter(Tensor(v))
            else: m._buffers[leaf] = Tensor(v)
            env["@" + nm] = g.get_attr(nm)
    def ref(a):
        if isinstance(a, list): return [ref(x) for x in a]
        if isinstance(a, str): return env[a] if a[0] == "@" else env[a[1:]]
        return a
    for name, kind, t, args, kw in sp["ops"]:
        a = tuple(ref(x) for x in args)
        if kind == "fn": n = g.call_function(getattr(torch, t), a, kw)
        elif kind == "aten": n = g.call_function(getattr(getattr(torch.ops.aten, t), "Tensor"), a, kw)
        elif kind == "get": n = g.call_function(operator.getitem, a, kw)
        else: n = g.call_method(t, a, kw)
        env[name] = n
    g.output(tuple(env[o] for o in sp["out"])); g.lint()
    return gm
def inputs(sp):
    size = {"s0": rng_int(2, 4), "s1": rng_int(2, 4)}; out = []
    for name, kind, x, *ty in sp["in"]:
        if kind == "symint": out.append(size[x])
        elif kind == "scalar": out.append(Tensor([x], ()))
        elif kind == "itensor": out.append(Tensor([rng_int(0, 5)], (1,), torch.int64))
        else:
            sh = [size.get(d, d) for d in x]; n = torch._numel(sh); b = rng_int(0, 400)
            out.append(Tensor([b + (i * 7 + 3) % 11 + 100 * i % 600 for i in range(n)], sh, torch.int64 if ty else torch.float32))
    return out
class Ran: sess = None
def hook(sess, ins):
    Ran.sess = sess; lib = sess.lib; prog, fixed, dts = lib["program"]; size = {}
    if len(ins) != len(fixed): fail("wrong-inputs", "a session compiled for %d inputs was run with %d" % (len(fixed), len(ins)))
    for i, (f, a) in enumerate(zip(fixed, ins)):
        if torch.from_numpy(a).dtype.n != dts[i]: fail("wrong-inputs", "a session compiled for %s in input %d was run with %s" % (dts[i], i, torch.from_numpy(a).dtype.n))
        if len(f) != len(a.shape) or any(size.setdefault(d, e) != e if isinstance(d, str) else d != e for d, e in zip(f, a.shape)):
            fail("wrong-inputs", "a session compiled for shape %s in input %d was run with shape %s" % (f, i, list(a.shape)))
    par = params(sess)
    at = {k: Tensor(v[1], v[2], getattr(torch, v[3])) if v[0] == "t" else v[1] for k, v in (par or {}).items()}
    return [x.numpy() for x in _fx.flat(_fx.execute(prog, at, [torch.from_numpy(a) for a in ins]))]
def params(sess):
    import json
    return sess.lib.get("inline") if sess.lib["constants"] is None else json.loads(sess.const)
W.hook = hook
import json as _json
class Run:
    def __init__(s):
        s.limit = pick((3, 3, 1, 100)); s.specs = []; s.why = []
        for _ in range(rng_int(1, 2)):
            s.specs.append(new_spec()); s.why.append("new")
        for _ in range(rng_int(0, 4)):
            i = choose(len(s.specs)); v, w = variant(s.specs[i], s.limit); s.specs.append(v); s.why.append("%s of %d" % (w, i))
        s.options = [{"compiler_image_name": pick((None, "")), "compile_options": o, "compiler_path": "/opt/onnx-mlir"} for o in ("-O3", "-O1")]
    def life(s, n):
        newLife(); os.environ["TORCHONNXMLIR_CACHE_DIR"] = K.scratch + "/cache"; W.uid += 0
        with Env():
            cfg = simimport.fresh("torch_onnxmlir.config", True)
            cfg.session_cache_limit = s.cap; cfg.sample_parameter_values_limit = s.limit; cfg.same_hash_size = s.samehash; cfg.keep_onnx_files = s.keep
            s.cfg = cfg
        ev("life %d capacity %d sample %d samehash %d keep %d" % (n, s.cap, s.limit, s.samehash, s.keep)); f0 = K.fired
        try:
            with Sut(): s.mod = simimport.fresh_more("torch_onnxmlir.backend")
        except OSError as e:
            if K.fired == f0: fail("call-failed", "importing the backend failed: %r" % e)
            return
        finally: K.sut = 0
        if FS.dead: return
        s.live = []; s.recent = []
        for _ in range(rng_int(1, 14)):
            try: s.call()
            except Crash: pass
            finally: K.sut = 0
            if FS.dead: return
    def call(s):
        i = choose(len(s.specs)); sp = s.specs[i]
        mine = [x for x in s.live if x[0] == i]
        if not mine or chance(1, 6):
            o = s.options[0] if chance(5, 6) else s.options[1]; gm = build(sp)
            with Sut(): fn = s.mod.onnxmlir_backend(gm, [], options=dict(o))
            e = [i, gm, fn, o, sp, 0, 0]; s.live.append(e); mine.append(e)
            ev("graph %d traced (%s, %s)" % (i, s.why[i], o["compile_options"]))
        e = pick(mine)
        # the user changes a parameter in place, while the backend still hashes every call
        if 0 < e[5] <= s.samehash and chance(1, 5):
            l = [(q, n) for q in ("par", "buf") for n in sorted(e[4][q])]
            if l:
                q, n = pick(l); sp = copy.deepcopy(e[4]); k = choose(min(len(sp[q][n]), s.limit)); sp[q][n][k] += 1; m = e[1]; *path, leaf = n.split(".")
                for x in path: m = m._modules[x]
                (m._parameters if q == "par" else m._buffers)[leaf].data_[k] += 1
                e[4] = sp; e[5] = 0; e[6] += 1; ev("graph %d: %s[%d] changed in place" % (i, n, k)); probe("parameter changed in place")
        _, gm, fn, o, sp, _, ver = e; e[5] += 1
        args = inputs(sp); f0 = K.fired; soft0 = softFired(); l0, c0 = W.nloads, W.ncompiles; Ran.sess = None
        want = _fx.flat(_fx.GraphModule.__call__(build(sp), *args))
        op("call graph %d" % i)
        try:
            with Sut(): got = fn(*args)
        except Exception as ex:
            if FS.dead: raise Crash()
            ev("raised %s: %s" % (type(ex).__name__, ex))
            if K.fired == f0: fail("call-failed", "calling graph %d failed without a fault: %s: %s" % (i, type(ex).__name__, ex))
            if K.fired - f0 == softFired() - soft0: fail("not-fallen-back", "graph %d could not be compiled, and the call failed instead of running the original computation: %s: %s" % (i, type(ex).__name__, ex))
            probe("call raised"); s.recent = []; return
        if FS.dead: raise Crash()
        got = _fx.flat(got); lib = Ran.sess.lib if Ran.sess else None
        ev("result by %s" % ("library %d" % lib["uid"] if lib else "eager"))
        if lib and lib["flags"] != o["compile_options"]: fail("wrong-options", "graph %d with options %s ran a model compiled with %s" % (i, o["compile_options"], lib["flags"]))
        if len(got) != len(want) or any(a.data_ != b.data_ or tuple(a.shape) != tuple(b.shape) for a, b in zip(got, want)):
            cls = "wrong-model"; own = dict((k, ["t", v.data_, list(v.shape), v.dtype.n]) for k, v in _fx.attrs(gm) if isinstance(v, Tensor)); have = params(Ran.sess) or {} if lib else {}
            if lib and lib["program"][0] == _json.loads(_json.dumps(_fx.program(gm))):
                dif = [k for k in own if own[k] != have.get(k)]
                if dif and all(k in have and own[k][2] == have[k][2] and own[k][1][:s.limit] == have[k][1][:s.limit] for k in dif): cls = "unsampled-parameter"
            fail(cls, "graph %d (%s) gave %s instead of %s; it ran %s" % (i, s.why[i], got[:3], want[:3], "the model compiled as library %d: %s" % (lib["uid"], lib["program"]) if lib else "eager"))
        key = (i, o["compile_options"], _json.dumps(sp))
        if lib:
            probe("compiled now" if W.ncompiles > c0 else "loaded from disk" if W.nloads > l0 else "memory hit")
            # a model that ran lately is still in the cache, whatever failed since
            if key in s.recent:
                since = s.recent[len(s.recent) - s.recent[::-1].index(key):]
                if len(set(since)) < s.cap and (W.nloads > l0 or W.ncompiles > c0): fail("evicted", "graph %d ran lately, only %d other models since, capacity %d, but it was %s again" % (i, len(set(since)), s.cap, "compiled" if W.ncompiles > c0 else "loaded"))
            if K.fired != f0 and W.nloads > l0: s.recent = [] # an absorbed fault while storing
            s.recent.append(key)
        else: probe("eager")
        state((s.cap, tuple(s.recent[-4:]), bool(lib), W.ncompiles - c0))
    def damage(s):
        root = K.scratch + "/cache"
        with Env():
            ds = sorted(os.listdir(root)) if os.path.isdir(root) else []
            fs = [root + "/" + d + "/" + f for d in ds if os.path.isdir(root + "/" + d) for f in sorted(os.listdir(root + "/" + d))]
            fs = [f for f in fs if not f.endswith(".constants.bin")]
            if not fs: return
            f = pick(fs)
            if f.endswith(".json") and chance(1, 2):
                t = pysim._real_open(f).read(); pysim._real_open(f, "w").write(t[:rng_int(0, max(0, len(t) - 1))]); ev("damage: %s cut" % rel(f)); countf("cache-file-cut")
            else: os.unlink(f); ev("damage: %s removed" % rel(f)); countf("cache-file-removed")
SOFT = ("compiler-missing", "compile-fails", "compiler-killed", "export-unsupported", "export-fails", "onnx-save-fails")
def softFired(): return sum(K.faults.get(k, [0, 0])[1] for k in SOFT)
def countf(k):
    f = K.faults.setdefault(k, [0, 0]); f[0] += 1; f[1] += 1; K.fired += 1
def run():
    faultKinds(pysim.KINDS + ["session-load-fails", "run-fails", "compiler-missing", "compile-fails", "compiler-killed", "export-unsupported", "export-fails", "onnx-save-fails"] * 2)
    pysim._REAL.mkdir(K.scratch + "/home", 0o700)
    s = Run(); s.cap = pick((1, 1, 2, 2, 3, 4)); s.samehash = pick((3, 1, 0)); s.keep = chance(1, 4)
    for i in range(rng_int(1, 4)):
        s.life(i)
        if FS.dead: probe("restart after crash")
        FS.dead = False
        if chance(1, 6): s.damage()
    K.armed = False; ev("faults stop"); s.life(99)
pysim.main(run, simimport.warm)
