"""Simulated compiler and inference session. A compiled library is a file with
a begin and an end mark; loading an incomplete one is what would end a real
process (a truncated ELF file), so the simulation reports it."""
import json, os
import pysim
from pysim import K, ev, fault, Env, Sut, fail
MAGIC, END = "ELF-SIM\n", "\nELF-END"
class World: hook = None; uid = 0; nloads = 0; ncompiles = 0; loadfail = True; sessions = {}; compile_fails = True
W = World
def make_library(path, body, constants=None):
    """Written by the compiler process, not by the process under test."""
    with Env():
        pysim._real_open(path, "w").write(MAGIC + json.dumps(body) + " " * (body["uid"] * 37 % 900) + END)
        if constants is not None: pysim._real_open(path[:-3] + ".constants.bin", "w").write(constants)
def read_library(path):
    with Env():
        s = pysim._real_open(path, errors="replace").read()
    if not s.startswith(MAGIC) or not s.endswith(END): return None
    try: return json.loads(s[len(MAGIC):-len(END)])
    except ValueError: return None
class InferenceSession:
    def __init__(self, shared_lib_path, tag="", use_default_entry_point=True):
        if pysim.FS.dead: raise pysim.Crash()
        self.path = os.fspath(shared_lib_path)
        ev("load %s" % pysim.rel(self.path))
        if W.loadfail and fault("session-load-fails"): raise RuntimeError("cannot load the model (injected)")
        if not os.path.isfile(self.path): raise RuntimeError("Cannot open library: '%s'" % self.path)
        self.lib = read_library(self.path)
        if self.lib is None: fail("torn-library", "an inference session was created from the incomplete library %s" % pysim.rel(self.path))
        if tag and tag != "NONE" and self.lib.get("tag") is not None and tag != self.lib["tag"]:
            raise RuntimeError("Cannot load symbol: 'omQueryEntryPoints_%s'" % tag)
        self.tag = tag; self.const = None
        W.nloads += 1
        if self.lib["constants"] is not None: # the library's constructor maps its constants from its own directory
            with Env():
                try: self.const = pysim._real_open(self.path[:-3] + ".constants.bin", errors="replace").read()
                except OSError: ev("constants missing")
    def _constants(self):
        if self.lib["constants"] is None: return
        if self.const is None: raise RuntimeError("Error when loading constants")
        if self.const != self.lib["constants"]: fail("foreign-constants", "the library %s (version %s) was run with constants that are not its own" % (pysim.rel(self.path), self.lib["uid"]))
    def run(self, inputs, shapes=None, strides=None):
        if pysim.FS.dead: raise pysim.Crash()
        self._constants()
        if fault("run-fails"): raise RuntimeError("inference failed (injected)")
        return W.hook(self, inputs)
    def get_shared_lib_path(self): return self.path
    def compilation_info(self): return '{"compiler":"sim"}'
    def input_signature(self): return self.lib.get("isig", "[]")
    def output_signature(self): return self.lib.get("osig", "[]")
    def print_instrumentation(self): pass
class CompileSession:
    """Reads the exported model, writes NAME.so (and constants) beside it."""
    def __init__(self, compiler_image=None, compiler_path="", verbose=False, **k):
        if pysim.FS.dead: raise pysim.Crash()
        if fault("compiler-missing"): raise RuntimeError("no compiler (injected)")
        self.out = None
    def compile(self, model, flags="", *a, **k):
        if pysim.FS.dead: raise pysim.Crash()
        with Env(): s = pysim._real_open(model, errors="replace").read()
        d = json.loads(s)
        ev("compile %s" % pysim.rel(model)); W.ncompiles += 1
        if fault("compile-fails"): raise RuntimeError("Compiler failed (injected)")
        W.uid += 1; tag = flags.split("--tag=")[-1].split()[0] if "--tag=" in flags else None
        consts = d.get("params"); ext = consts is not None and W.uid % 2 == 0
        body = dict(uid=W.uid, tag=tag, program=d["program"], constants=None, flags=flags.split("--tag=")[0].strip())
        if consts is not None:
            if ext: body["constants"] = json.dumps(consts)
            else: body["inline"] = consts
        self.out = os.path.splitext(model)[0] + ".so"
        if fault("compiler-killed"): # partial output and a failure status
            with Env(): pysim._real_open(self.out, "w").write(MAGIC)
            raise RuntimeError("Compiler failed with signal (injected)")
        make_library(self.out, body, body["constants"])
        return self.out
OMCompile = CompileSession
