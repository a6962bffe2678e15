"""P31: the Python client that compiles a model (with a local compiler or in a
container) and opens a session on the result. Real: onnxmlirdocker.py, tempfile,
files. Simulated: the compiler process, the container engines, PyRuntime."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim/py")
import errno, gc, json, shlex, subprocess, tempfile, types
import pysim
from pysim import *
REPO = os.environ.get("VERIF_REPO", "/repo"); SRC = REPO + "/src/Runtime/python/onnxmlirdocker.py"
CODE = compile(open(SRC).read(), SRC, "exec", dont_inherit=True)
OPTS = ["-O3", "-O2", "--mcpu=z16", "--maccel=NNPA", "--store-constants-to-file", "--profile-ir=Onnx"]
class World: pass
W = World()
def root(p): return K.scratch + "/" + p
def read(p):
    with pysim._real_open(p) as f: return f.read()
def write(p, s):
    with pysim._real_open(p, "w") as f: f.write(s)
def parse(p): # a model file or a library: key=value lines
    return dict(l.split("=", 1) for l in read(p).split("\n") if "=" in l)
# ---- the compiler, seen through some mapping of paths
def compilerRun(argv, where, by):
    """Returns the exit status. where(path) is the file behind a path, or None."""
    W.seq += 1; W.attempts.append(W.seq); pos, opts, out, tag, i = [], [], [], "", 0
    ev("  compiler %d %s: %s" % (W.seq, by.replace(K.scratch, ""), " ".join(repr(a.replace(K.scratch, "")) for a in argv)))
    if "--version" in argv: W.attempts.pop(); return 0
    while i < len(argv):
        a = argv[i]; i += 1
        if a == "-o":
            if i == len(argv): return 1
            out.append(argv[i]); i += 1
        elif a.startswith("--tag="): tag = a[6:]
        elif a in OPTS: opts.append(a)
        elif a.startswith("-"): ev("  unknown option"); return 1
        else: pos.append(a)
    if len(pos) != 1 or len(out) != 1: ev("  wrong arguments"); return 1
    src = where(pos[0]); dst = where(out[0] + ".so")
    if not src or not os.path.isfile(src): ev("  no input"); return 1
    if not dst or not os.path.isdir(os.path.dirname(dst)): ev("  no place for the output"); return 1
    m = parse(src)
    if m.get("bad") != "0": ev("  model is invalid"); return 1 if m.get("bad") == "1" else -11 if by.startswith("host:") else 139
    if fault("compile-fails"):
        how = choose(3); ev("  fails (%d)" % how)
        if how == 1: write(dst, "part")
        return pick((1, 2, 127, 255, -9, -11))
    m.update(seq=str(W.seq), opts=json.dumps(opts), tag=tag, by=by, done="1")
    write(dst, "\n".join("%s=%s" % kv for kv in sorted(m.items())) + "\n"); write(dst[:-3] + ".constants.bin", str(W.seq))
    W.done.add(W.seq); return 0
# ---- processes
class Popen:
    def __init__(s, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, text=None, encoding=None, errors=None, **k):
        s.text = text or universal_newlines or encoding; s.out, s.err = (stdout == subprocess.PIPE), (stderr == subprocess.PIPE); s.args = args; s.pid = 4242
        s.stdin = s.stdout = s.stderr = None
        with Env():
            if isinstance(args, (str, bytes)): a = shlex.split(os.fsdecode(args)) if shell else [os.fsdecode(args)]
            else: a = [os.fsdecode(x) for x in args]
            if isinstance(args, (list, tuple)) and shell: a = shlex.split(a[0])
            p = executable or a[0]
            if cwd: p = os.path.join(cwd, p)
            if not os.path.exists(p): ev("  no such program"); raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            if not os.access(p, os.X_OK) or os.path.isdir(p): raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), p)
        if fault("spawn-fails"): ev("  no process"); raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        with Env(): s.returncode = None; s._rc = compilerRun(a[1:], lambda q: os.path.join(cwd or os.getcwd(), q), "host:" + p); ev("  status %d" % s._rc)
    def _t(s, on): return None if not on else "text" if s.text else b"text"
    def communicate(s, input=None, timeout=None): s.returncode = s._rc; return s._t(s.out), s._t(s.err)
    def wait(s, timeout=None): s.returncode = s._rc; return s._rc
    def poll(s): s.returncode = s._rc; return s._rc
    def kill(s): pass
    terminate = kill
    def __enter__(s): return s
    def __exit__(s, *a): s.wait()
# ---- container engines
def engine(name):
    m = types.ModuleType(name); er = types.ModuleType(name + ".errors"); m.errors = er
    class DockerException(Exception): pass
    class APIError(DockerException): pass
    class ImageNotFound(APIError): pass
    class ContainerError(DockerException): pass
    for c in (DockerException, APIError, ImageNotFound, ContainerError): setattr(er, c.__name__, c)
    class Images:
        def get(s, n):
            if fault("engine-error"): raise APIError("get")
            with Env():
                if n not in W.images or not W.images[n]["here"]: raise ImageNotFound(n)
                return n
        def pull(s, n, tag=None, **k):
            if fault("pull-fails"): ev("  pull fails"); raise APIError("pull")
            with Env():
                if n not in W.images: raise ImageNotFound(n)
                W.images[n]["here"] = True; ev("  pulled " + n); return n
    class Containers:
        def run(s, image, command=None, stdout=True, stderr=False, remove=False, volumes=None, **k):
            if fault("engine-error"): ev("  engine error"); raise APIError("run")
            with Env():
                if image not in W.images or not W.images[image]["here"]: raise ImageNotFound(image)
                im = W.images[image]; a = shlex.split(command) if isinstance(command, str) else list(command or [])
                vol = [(h, v["bind"], v.get("mode", "rw")) for h, v in (volumes or {}).items()] if isinstance(volumes, dict) else [tuple((x.split(":") + ["rw"])[:3]) for x in volumes or []]
                for h, b, _ in vol:
                    if not os.path.isabs(h) or not os.path.isabs(b): raise APIError("mount of a relative path")
                def where(q):
                    if not os.path.isabs(q): q = os.path.join(k.get("working_dir") or "/workdir", q)
                    best = None
                    for h, b, mode in vol:
                        b = b.rstrip("/") or "/"
                        if (q == b or q.startswith(b.rstrip("/") + "/")) and (best is None or len(b) > len(best[1])): best = (h, b)
                    return best and (best[0] + q[len(best[1]):])
                if im["entry"]: by = "entry"
                else:
                    if not a: raise ContainerError("no command")
                    by = a.pop(0)
                    if by not in im["has"]:
                        h = where(by)
                        if not h or not os.path.isfile(h): ev("  no such program in the container"); raise APIError("exec: %s not found" % by)
            rc = compilerRun(a, where, image + ":" + by)
            ev("  status %d" % rc)
            if rc: raise ContainerError("command returned %d" % rc)
            return b"text"
    class Client:
        def __init__(s): s.images, s.containers = Images(), Containers()
        def close(s): pass
        def ping(s): return True
    def from_env(**k):
        if fault("engine-unreachable"): ev("  engine unreachable"); raise DockerException("unreachable")
        W.engineUsed = name; return Client()
    m.from_env = from_env; m.DockerClient = m.PodmanClient = lambda *a, **k: from_env()
    return m
# ---- the runtime
class OMExecutionSession:
    def __init__(s, shared_lib_path, tag="", use_default_entry_point=1):
        if fault("load-fails"): ev("  load fails"); raise RuntimeError("cannot load")
        with Env():
            if not os.path.isfile(shared_lib_path): raise RuntimeError("cannot open " + shared_lib_path)
            s.path = os.path.abspath(shared_lib_path); s.lib = parse(s.path)
            if s.lib.get("done") != "1": raise RuntimeError("invalid library")
            if tag != s.lib["tag"]: raise RuntimeError("no symbol with tag " + tag)
            s.constants("opened")
    def constants(s, what):
        d = os.environ.get("OM_CONSTANT_PATH")
        if d is None or os.path.realpath(d) != os.path.realpath(os.path.dirname(s.path)): fail("wrong-constants", "library %s is %s while OM_CONSTANT_PATH is %s" % (s.path.replace(K.scratch, ""), what, (d or "unset").replace(K.scratch, "")))
        c = s.path[:-3] + ".constants.bin"
        if not os.path.isfile(c): fail("constants-gone", "the constants of %s do not exist when it is %s" % (s.path.replace(K.scratch, ""), what))
    def input_signature(s): return json.dumps([{"type": "f32", "dims": [1], "name": n} for n in s.lib["ins"].split(",")])
    def output_signature(s): return json.dumps([{"type": "f32", "dims": [1], "name": "out" + s.lib["id"]}])
    def run(s, inputs, *a, **k):
        W.ran.append(list(inputs))
        if fault("run-fails"): ev("  run fails"); raise RuntimeError("inference failed")
        with Env(): s.constants("run"); return [("result", s.lib["seq"], tuple(inputs))]
def fresh():
    for n in [n for n in sys.modules if n.split(".")[0] in ("onnxmlir", "docker", "podman")]: del sys.modules[n]
    p = types.ModuleType("onnxmlir"); p.__path__ = []; sys.modules["onnxmlir"] = p
    r = types.ModuleType("onnxmlir.PyRuntime"); r.OMExecutionSession = OMExecutionSession; sys.modules["onnxmlir.PyRuntime"] = r; p.PyRuntime = r
    for n in ("docker", "podman"):
        if n in W.engines: sys.modules[n] = engine(n); sys.modules[n + ".errors"] = sys.modules[n].errors
        else: sys.modules[n] = None # an import of it fails
    np = types.ModuleType("numpy"); np.ndarray = list; np.array = np.asarray = lambda x, *a, **k: x; sys.modules["numpy"] = np
    m = types.ModuleType("onnxmlir.onnxmlirdocker"); m.__package__ = "onnxmlir"; m.__file__ = SRC; sys.modules[m.__name__] = m
    exec(CODE, m.__dict__); return m
class Quiet:
    def write(s, *a): return 0
    def flush(s): pass
# ---- histories
DIRS = ["models", "my models", "deep/er", "o'brien", "x"]
def newModel(d):
    n = pick(("net", "a model", "net.v2", "m")); ext = pick((".onnx", ".onnx", ".mlir"))
    return root(d) + "/" + n + ext
def setModel(p):
    W.ver += 1; names = ["x", "y", "z"][:rng_int(1, 3)]
    if chance(1, 2): names.reverse()
    write(p, "id=%d\nins=%s\nbad=%d\n" % (W.ver, ",".join(names), pick((0, 0, 0, 0, 0, 0, 1, 2)))); ev("model %s is version %d" % (p.replace(K.scratch, ""), W.ver))
def create(mod):
    p = pick(W.models) if W.models and not chance(1, 3) else newModel(pick(DIRS))
    if p not in W.models: W.models.append(p)
    if not os.path.exists(p) and not chance(1, 12): setModel(p)
    elif os.path.exists(p) and chance(1, 3): setModel(p)
    opts = [pick(OPTS) for _ in range(choose(3))]; opts = [o for i, o in enumerate(opts) if o not in opts[:i]]
    words = [shlex.quote(o) for o in opts]; out = None; expectBad = False
    if chance(2, 3):
        if W.outs and chance(3, 4): out = pick(W.outs)
        else: out = root(pick(DIRS)) + "/" + pick(("out", "lib.so", "out put", "net")); W.outs.append(out)
        if chance(1, 12): out = root("nosuch/out"); expectBad = True
        o = os.path.relpath(out, os.getcwd()) if chance(1, 3) else out
        i = rng_int(0, len(words)); words[i:i] = ["-o", shlex.quote(o)]
    kw = {}; tag = "NONE"
    if words or chance(1, 3):
        kw["compile_options"] = "".join((" " if i or chance(1, 6) else "") + (" " if chance(1, 6) else "") + w for i, w in enumerate(words)) + (" " if chance(1, 8) else "")
    if chance(1, 3): tag = kw["compile_tag"] = pick(("v1", "other", "NONE"))
    which = W.habit if chance(1, 2) else choose(7); image = "ghcr.io/onnxmlir/onnx-mlir-dev"; path = "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir"
    if which >= 4: # local
        kw["compiler_image_name"] = pick(("local", "None")); image = None; path = kw["compiler_path"] = root(pick(("bin/onnx-mlir", "my bin/onnx-mlir", "bin/onnx-mlir", "bin/nosuch" if chance(1, 6) else "bin/onnx-mlir")))
        if not os.path.exists(path): expectBad = True
        by = "host:" + path
    else:
        if which == 1: image = kw["compiler_image_name"] = "ghcr.io/onnxmlir/onnx-mlir"; path = "/usr/local/bin/bin/onnx-mlir"
        if which == 1 and chance(1, 3): path = kw["compiler_path"] = "/opt/other"
        if which == 2: image = kw["compiler_image_name"] = "icr.io/ibmz/zdlc:5.0.0"; path = ""
        if which == 3:
            image = kw["compiler_image_name"] = pick(("mine:1", "mine:1", "nosuch:1")); path = pick(("/opt/onnx-mlir", root("my bin/onnx-mlir"), root("bin/onnx-mlir"), "/opt/nosuch", None))
            if path is None: expectBad = True
            else: kw["compiler_path"] = path
            if image == "nosuch:1" or path == "/opt/nosuch": expectBad = True
        if chance(1, 4): kw["container_engine"] = pick(("docker", "podman", None, "other" if chance(1, 4) else "docker"))
        e = kw.get("container_engine")
        if e == "other" or (e and e not in W.engines) or not W.engines: expectBad = True
        by = image + ":" + ("entry" if path == "" else path or "")
    src = parse(p) if os.path.exists(p) else None
    if not src or src["bad"] != "0": expectBad = True
    show = {k: v.replace(K.scratch, "") if isinstance(v, str) else v for k, v in kw.items()}
    op("open %s %s" % (p.replace(K.scratch, ""), sorted(show.items(), key=str)))
    W.attempts = []; f0 = K.fired; s = None; err = None; ranBefore = len(W.ran)
    rp = os.path.relpath(p) if chance(1, 4) else p
    try:
        with Sut(): s = mod.InferenceSession(rp, **kw)
    except (Violation, RunEnd, Crash): raise
    except SystemExit as e:
        err = "exit %r" % (e.code,)
        if not e.code: fail("silent-failure", "opening the model ended the program with a status of success")
    except Exception as e: err = type(e).__name__
    ev("  -> " + (err or "session")); quietOn(); faulted = K.fired != f0
    outcome = "ok" if s else "bad" if expectBad else "fault"
    state((which, outcome, faulted, out is not None, len(W.live)))
    if err:
        if not expectBad and not faulted: fail("refused", "opening a valid model raised %s although nothing failed" % err)
        probe("failure reported"); return
    made = [a for a in W.attempts if a in W.done]
    if not made: fail("not-compiled", "a session was opened although its compilation did not succeed")
    lib = s.session.lib
    if lib["seq"] != str(made[-1]): fail("other-library", "the session runs the library of compilation %s instead of %s" % (lib["seq"], made[-1]))
    if lib["id"] != src["id"]: fail("other-model", "the session runs version %s of a model instead of %s" % (lib["id"], src["id"]))
    if json.loads(lib["opts"]) != opts: fail("other-options", "compiled with %s instead of %s" % (lib["opts"], opts))
    if lib["tag"] != tag: fail("other-tag", "compiled with tag %s" % lib["tag"])
    if lib["by"] != by: fail("other-compiler", "compiled by %s instead of %s" % (lib["by"].replace(K.scratch, ""), by.replace(K.scratch, "")))
    if image and kw.get("container_engine") and W.engineUsed != kw["container_engine"]: fail("other-engine", "compiled with %s" % W.engineUsed)
    if expectBad: fail("harness-expectation", "the request was expected to fail")
    want = (out if out.endswith(".so") else out + ".so") if out else None
    if want and os.path.realpath(s.session.path) != os.path.realpath(want): fail("other-output", "the library is %s instead of %s" % (s.session.path.replace(K.scratch, ""), want.replace(K.scratch, "")))
    if len(W.ran) != ranBefore: fail("ran-unasked", "opening a session ran the model")
    probe("session opened"); W.live.append([s, lib])
    # a library in use is not to be overwritten by a later step of this history
    if want: W.outs = [o for o in W.outs if (o if o.endswith(".so") else o + ".so") != want] if chance(1, 3) else W.outs
def openLib(mod):
    libs = [l for l in W.outs if os.path.isfile(l if l.endswith(".so") else l + ".so")]
    if not libs: return
    p = pick(libs); p = p if p.endswith(".so") else p + ".so"; d = parse(p); tag = d.get("tag", "NONE") if not chance(1, 6) else "wrong"
    kw = {} if tag == "NONE" else {"compile_tag": tag}
    op("open library %s %s" % (p.replace(K.scratch, ""), sorted(kw.items()))); f0 = K.fired; W.attempts = []; s = None; err = None
    try:
        with Sut(): s = mod.InferenceSession(p, **kw)
    except (Violation, RunEnd, Crash): raise
    except SystemExit as e: err = "exit %r" % (e.code,)
    except Exception as e: err = type(e).__name__
    quietOn(); ev("  -> " + (err or "session")); ok = d.get("done") == "1" and tag == d.get("tag")
    if W.attempts: fail("compiled-library", "a compiler ran although a library was given")
    if err and ok and K.fired == f0: fail("refused", "opening a valid library raised %s although nothing failed" % err)
    if s and not ok: fail("harness-expectation", "the library was expected to be refused")
    if s:
        probe("library opened"); W.live.append([s, d])
        if s.session.lib["seq"] != d["seq"]: fail("other-library", "another library was opened")
def use():
    s, lib = W.live[choose(len(W.live))]; names = lib["ins"].split(","); vals = {n: rng_int(0, 99) for n in names}; style = choose(5); n0 = len(W.ran); f0 = K.fired
    if style <= 1:
        order = list(names)
        if chance(1, 2): order.reverse()
        feed = {n: vals[n] for n in order}
        if chance(1, 4): feed["unrelated"] = 5
    elif style == 2: feed = [vals[n] for n in names]
    elif style == 3: feed = {n: vals[n] for n in names[1:]} or {"w": 1}
    else: feed = pick(([], {}, None))
    op("run library %s with %r" % (lib["seq"], feed)); err = None; r = None
    try:
        with Sut(): r = s.run_ort(None, feed) if chance(1, 4) else s.run(feed)
    except (Violation, RunEnd, Crash): raise
    except SystemExit as e:
        err = "exit %r" % (e.code,)
        if not e.code: fail("silent-failure", "a run ended the program with a status of success")
    except Exception as e: err = type(e).__name__
    quietOn(); ev("  -> " + (err or repr(r))); new = W.ran[n0:]
    if style >= 3:
        if new or not err: fail("ran-without-inputs", "the model was run although inputs are missing")
        probe("missing inputs refused"); return
    want = [vals[n] for n in names]
    if new and new != [want]: fail("other-inputs", "the model got the inputs %r instead of %r" % (new, [want]))
    if err:
        if K.fired == f0: fail("refused", "a run raised %s although nothing failed" % err)
        return
    if r != [("result", lib["seq"], tuple(want))]: fail("other-result", "the run returned %r" % (r,))
    if s.input_signature() != s.session.input_signature() or s.output_signature() != s.session.output_signature(): fail("other-signature", "another signature")
    probe("run compared")
def quietOn(): sys.last_value = sys.last_exc = None
def tmps(): return sorted(d for d in os.listdir(K.scratch + "/tmp"))
def run():
    faultKinds(["compile-fails", "compile-fails", "spawn-fails", "engine-error", "engine-unreachable", "pull-fails", "load-fails", "run-fails"])
    with Env():
        W.seq = 0; W.attempts = []; W.done = set(); W.ran = []; W.models = []; W.outs = []; W.live = []; W.ver = 0; W.engineUsed = None; W.habit = choose(7)
        W.engines = pick((["docker"], ["docker", "podman"], ["docker", "podman"], ["podman"], [] if chance(1, 3) else ["docker"]))
        W.images = {"ghcr.io/onnxmlir/onnx-mlir-dev": dict(has=["/workdir/onnx-mlir/build/Debug/bin/onnx-mlir"], entry=False), "ghcr.io/onnxmlir/onnx-mlir": dict(has=["/usr/local/bin/bin/onnx-mlir", "/opt/other"], entry=False),
                    "icr.io/ibmz/zdlc:5.0.0": dict(has=[], entry=True), "mine:1": dict(has=["/opt/onnx-mlir"], entry=False)}
        for i in W.images.values(): i["here"] = not chance(1, 3)
        for d in DIRS + ["bin", "my bin", "cwd", "home"]: os.makedirs(root(d))
        for d in ("bin", "my bin"): write(root(d) + "/onnx-mlir", "#!compiler\n"); os.chmod(root(d) + "/onnx-mlir", 0o755)
        os.chdir(root("cwd")); os.environ.pop("OM_CONSTANT_PATH", None)
    pysim.newLife(); subprocess.Popen = Popen; os.system = lambda c: Popen(c, shell=True).wait() << 8
    sys.stdout = Quiet(); sys.stdin = open(os.devnull); mod = fresh()
    n = rng_int(2, 7)
    for i in range(n):
        if W.live and chance(2, 5): use()
        elif chance(1, 6): openLib(mod)
        elif W.live and chance(1, 6): op("close"); W.live.pop(choose(len(W.live)))
        else: create(mod)
    W.live.clear(); gc.collect(); left = tmps()
    if left: fail("left-behind", "after all sessions ended, %d temporary directories remain" % len(left))
pysim.main(run)
