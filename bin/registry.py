"""What each check builds, runs and reports."""
import os, re, sys, simbuild
from simbuild import VERIF, REPO
SIM, HAR = os.path.join(VERIF, "sim"), os.path.join(VERIF, "harness")
RT = REPO + "/src/Runtime/"
BASE = ["-O1", "-U_FORTIFY_SOURCE", "-g", "-fno-omit-frame-pointer", "-w", "-DONNX_ML=1"]
ASAN = ["-fsanitize=address"]
RINC = ["-I" + REPO, "-I" + REPO + "/include", "-I" + SIM, "-I" + RT]
ALLOCW = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "strdup", "strndup"]
def wraps(*names): return ["-Wl,--wrap=" + n for n in names]
def unit(src, flags): return (src, flags)

NOTE = "Seeded random search over histories, schedules and faults against the real code; a clean batch is evidence, not proof. Every violation is gated (same seed twice, fresh process), minimised and replayable."
class Cfg:
    def __init__(self, spec=None, cmd=None, runs=None, time=None, probes=(), rule="", states="", real=(), stub=(), assumptions=(), level="exploration", env=None, recheck=200, shrink=45.0, technique="", note=""):
        self.spec, self._cmd = spec, cmd
        self.runs = runs or {"quick": 20000, "thorough": 2000000}; self.time = time or {"quick": 40, "thorough": 1500}
        self.probes, self.rule, self.states, self.real, self.stub, self.assumptions = list(probes), rule, states, list(real), list(stub), list(assumptions)
        self.technique, self.note = technique, note or NOTE
        self.level, self.env, self.recheck, self.shrink = level, env or {}, recheck, shrink
    def build(self, prop):
        if self.spec: self.exe = simbuild.build(self.spec() if callable(self.spec) else self.spec)
    def command(self, prop):
        if self._cmd: return self._cmd(prop)
        return [self.exe, "--prop", prop]

def cxx(name, harness, repo_c=(), repo_cxx=(), extra_units=(), wrap=(), flags=(), link=(), asan=True, std="-std=c++17", sim=("simkit.cpp", "simalloc.cpp", "simasan.cpp")):
    fl = BASE + (ASAN if asan else []) + list(flags)
    simfl = BASE + [std, "-I" + SIM]
    u = [unit(os.path.join(SIM, s), simfl) for s in sim]
    u += [unit(os.path.join(HAR, h), fl + [std] + RINC) for h in ([harness] if isinstance(harness, str) else harness)]
    u += [unit(REPO + "/" + s, fl + ["-std=gnu11"] + RINC) for s in repo_c]
    u += [unit(REPO + "/" + s, fl + [std] + RINC) for s in repo_cxx]
    u += list(extra_units)
    ln = (ASAN if asan else []) + wraps(*(ALLOCW + list(wrap))) + list(link) + ["-lpthread", "-ldl", "-lm"]
    return {"name": name, "units": u, "link": ln}

TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
def sched(name, harness, repo_c=(), repo_cxx=(), extra_units=(), wrap=(), flags=(), link=(), std="-std=c++17"):
    """Threads under the deterministic scheduler: code under test is compiled with memory-access
    instrumentation (clang's thread-sanitizer pass, without its runtime), the scheduler supplies the hooks."""
    c = cxx(name, harness, wrap=list(wrap) + ["fputs", "fputc", "fwrite", "puts", "fflush", "vfprintf", "fprintf", "vsnprintf", "snprintf", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat"], flags=flags, link=list(link) + ["-rdynamic", "-fsanitize=address"], asan=False, std=std, sim=("simkit.cpp", "simalloc.cpp", "simasan.cpp", "simsched.cpp"))
    fl = BASE + TSAN + list(flags)
    c["units"] += [(REPO + "/" + s, fl + ["-std=gnu11"] + RINC, "clang") for s in repo_c]
    c["units"] += [(REPO + "/" + s, fl + [std] + RINC, "clang++") for s in repo_cxx]
    c["units"] += list(extra_units)
    return c

RTCXX = ["src/Runtime/OMTensor.cpp", "src/Runtime/OMTensorList.cpp", "src/Runtime/OnnxDataType.cpp", "src/Runtime/OMTensorHelper.cpp", "src/Runtime/OMTensorListHelper.cpp", "src/Runtime/ExecutionSession.cpp"]
def session(): return cxx("session", "h_session.cpp", repo_cxx=RTCXX, repo_c=["src/Support/SmallFPConversion.c"], wrap=["dlopen", "dlsym", "dlclose", "dlerror"])

CHECKS = {}
RULE = "a run is one seeded history of operations and faults in its own process; distinct: different event log (operations, injected faults, results); non-trivial: at least two operations or one fault that fired"
LOADER = "dynamic loader and model libraries (simulated, with reference counts and constructors)"
CHECKS["P01"] = Cfg(session, technique="simulated dynamic loader and environment, failing opens, lookups and allocations",
    rule=RULE, states="loaded sessions, entry points, open handles and user environment after each operation",
    probes=["failed load", "open failed", "symbol missing"], real=["ExecutionSession", "OMTensor", "OMTensorList", "process environment"], stub=[LOADER],
    assumptions=["the loader follows dlopen's reference-count semantics", "single-threaded use"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P02"] = Cfg(session, technique="simulated models and allocation ledger, failing allocations",
    rule=RULE, states="interface, model outcome, result and fault presence per run",
    probes=["allocation failed after the model ran", "allocation failed before the model ran"], real=["ExecutionSession", "OMTensor", "OMTensorList", "allocator (AddressSanitizer)"], stub=[LOADER],
    assumptions=["a model leaves its inputs alone and returns either null with errno or a list it created"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P03"] = Cfg(session, technique="simulated crashing models, signal state compared around every call",
    rule=RULE, states="interface, model outcome, signal and result per run",
    real=["ExecutionSession", "kernel signal delivery"], stub=[LOADER],
    assumptions=["the five guarded signals are not blocked by the caller", "one guarded run at a time"], runs={"quick": 40000, "thorough": 4000000})

def instr(): return cxx("instr", "h_instr.cpp", repo_c=["src/Runtime/OMInstrument.c"], wrap=["fopen", "popen", "pclose", "gettimeofday", "clock_gettime"])
CHECKS["P05"] = Cfg(instr, technique="simulated clock, memory query and report-file faults; the report is compared with the event history", rule=RULE,
    states="numbers of time and memory lines, destination and switches per run", probes=["buffer overflowed", "run without report request"],
    real=["OMInstrument.c", "stdio on scratch files"], stub=["clock", "memory query (popen)", "failure of opening the report file"],
    assumptions=["runs are not concurrent", "a report is requested between runs, not inside one", "of runs for which no report was requested only lines flushed early are expected"], runs={"quick": 30000, "thorough": 3000000})

def const():
    c = cxx("const", "h_const.cpp", repo_c=["src/Runtime/OMExternalConstant.c"], wrap=["open", "open64", "close", "read", "pread", "pread64", "mmap", "mmap64", "munmap", "fstat", "fstat64", "stat", "lseek"], link=["-Wl,-z,muldefs"])
    c["units"].append(unit(os.path.join(HAR, "zos_const.c"), BASE + ASAN + ["-std=gnu11"] + RINC)); return c
CHECKS["P04"] = Cfg(const, technique="failing, short and interrupted system calls and truncated files under both variants of the loader", rule=RULE,
    states="which constants are loaded, variant and configured directory after each operation", probes=["malloc/read variant", "mmap variant", "load failed by a fault", "load failed by its file", "loaded in spite of a fault", "unloaded"],
    real=["OMExternalConstant.c (mmap variant and z/OS read variant)", "files in a scratch directory"], stub=["failures and short counts of open, read, close, mmap, stat, seek and malloc"],
    assumptions=["constant files are not modified while loaded", "single-threaded use (threads: P22)"], runs={"quick": 50000, "thorough": 4000000})

def tensor(): return cxx("tensor", "h_tensor.cpp", repo_cxx=RTCXX, repo_c=["src/Support/SmallFPConversion.c", "src/Runtime/OMRandomNormal.c", "src/Runtime/OMRandomUniform.c"],
    wrap=["dlopen", "dlsym", "dlclose", "dlerror", "rand", "srand", "rand_r"])
CHECKS["P06"] = Cfg(tensor, technique="histories of creation, ownership change and destruction under failing allocation, compared with a model and an allocation ledger", rule=RULE,
    states="numbers of live tensors, owning tensors and lists, and whether a fault fired, after each operation", probes=["create failed"],
    real=["OMTensor", "OMTensorList", "string buffers", "allocator (AddressSanitizer)"], stub=["failing malloc"],
    assumptions=["the caller gives each buffer to at most one owner", "single-threaded use (threads: P22)", "shapes and strides have small values"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P07"] = Cfg(tensor, technique="histories of seeded and unseeded requests under a simulated entropy source and failing allocation", rule=RULE,
    states="number of inputs, whether a seed was ever defined, seed argument, random or constant", probes=["invalid request refused", "request failed by a fault", "repeated request compared"],
    real=["OMTensorHelper", "OMTensorListHelper", "ExecutionSession::fillInputDebug", "std::mt19937 and distributions"], stub=[LOADER, "std::random_device", "failing malloc and calloc"],
    assumptions=["bounds are representable in the input's type", "failures of operator new are not injected", "single-threaded use"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P20"] = Cfg(tensor, technique="histories of random operators interleaved with other users of a simulated C generator that also returns its extreme values", rule="a run is one seeded history of operator calls; distinct: different event log; non-trivial: at least two operator calls",
    states="operator, seed, distribution and size class", probes=["same request compared"], real=["OMRandomNormal.c", "OMRandomUniform.c", "OMTensor"], stub=["rand and srand (a counter-based generator that also returns 0 and RAND_MAX)"],
    assumptions=["seeds are integers at least 2", "operators of one process do not run at the same time"], runs={"quick": 40000, "thorough": 4000000})

def compile_():
    return cxx("compile", "h_compile.cpp", repo_cxx=["src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp", "src/Runtime/python/PyOMCompile.cpp"],
        flags=["-I" + SIM + "/stub", "-I" + REPO + "/include", "-I" + REPO + "/src/Runtime/python"], asan=False, sim=("simkit.cpp", "simalloc.cpp"),
        wrap=["fork", "waitpid", "execvp", "execv", "execve", "execvpe", "open", "open64", "dup2", "gethostname"])
PROCRULE = "a run is one seeded history of calls, programs and faults in its own process (programs run in forked children); distinct: different event log; non-trivial: at least two operations or one fault that fired"
CHECKS["P08"] = Cfg(compile_, technique="simulated programs in forked children with planned ends; interrupted waits and failing process, directory, descriptor and memory calls", rule=PROCRULE,
    states="result, redirection, working directory and closed standard streams per execution", probes=["wait interrupted", "redirection failed", "killed by a signal", "could not be executed"],
    real=["Command.cpp", "kernel processes, descriptors, directories and signals"], stub=["the executed programs", "failures of fork, exec, waitpid, open, dup2, chdir, getcwd and operator new"],
    assumptions=["single-threaded use (threads: P11)"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P09"] = Cfg(compile_, technique="simulated compilers that stop at any step; failing system calls and allocations", rule=PROCRULE,
    states="session state, result, earlier outputs, point where the compiler stopped", probes=["compiled", "compiled with constants", "compiler failed"],
    real=["OMCompile.cpp", "CommandUtils.cpp", "Command.cpp", "kernel processes and files"], stub=["the compiler", "failures of fork, exec, waitpid, open, dup2, stat, getcwd and operator new"],
    assumptions=["the compiler names its output as documented", "one model per compilation"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P10"] = Cfg(compile_, technique="simulated container engines, images, mounts and shell; failing engines, system calls and allocations", rule=PROCRULE,
    states="engines, image, permission, nesting and result per session; as P09 per compilation", probes=["container session", "container session after a pull", "container session refused", "compiled", "compiler failed"],
    real=["OMCompile.cpp", "CommandUtils.cpp", "Command.cpp"], stub=["docker and podman, images, container file systems and sh", "the compiler", "signs of running in a container"],
    assumptions=["paths contain no colon", "the engine's command line is docker's"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P23"] = Cfg(compile_, technique="simulated compilers that stop at any step; histories of compilations with and without reuse", rule=PROCRULE,
    states="as P09", probes=["reused", "compiled", "compiler failed"], real=["PyOMCompile.cpp", "OMCompile.cpp", "CommandUtils.cpp", "Command.cpp"], stub=["the compiler", "pybind11 (the binding declarations only)", "failing system calls and allocations"],
    assumptions=["an existing output file is a complete library"], runs={"quick": 20000, "thorough": 2000000})

JNI = "/usr/lib/jvm/java-17-openjdk-amd64/include"
def jni(): return cxx("jni", "h_jni.cpp", repo_c=["src/Runtime/jni/jniwrapper.c", "src/Runtime/jni/jnilog.c", "src/Runtime/OMInstrument.c", "src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c", "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c"],
    flags=["-I" + SIM + "/stub/jni", "-I" + JNI, "-I" + JNI + "/linux", "-ftrivial-auto-var-init=pattern"])
CHECKS["P17"] = Cfg(jni, technique="simulated Java environment and models: any Java call, allocation or the model fails; loans, exceptions, native memory and results are checked after every call", rule=RULE,
    states="operation, numbers of tensors, outcome, invalid input and fault presence per call", probes=["outputs compared", "model failed", "invalid input refused", "model without that text"],
    real=["jniwrapper.c", "jnilog.c", "OMTensor.c", "OMTensorList.c", "allocator (AddressSanitizer)"], stub=["Java virtual machine (references, loans, exceptions, OMTensor and OMTensorList objects)", "model code"],
    assumptions=["input tensors have the strides of their shape", "tensors of numbers (no strings)", "the direct buffer of a tensor is as long as its shape says"], runs={"quick": 40000, "thorough": 4000000})

NUMPY = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
def pb11():
    """pybind11's numpy.h for the installed NumPy: this pybind11 predates NumPy 2 (other descriptor layout)."""
    d = os.path.join(VERIF, "build", "pb11", "pybind11"); os.makedirs(d, exist_ok=True)
    s = open("/usr/include/pybind11/numpy.h").read()
    for a, b in (("    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;", "    char former_flags;\n    int type_num;\n    uint64_t flags;\n    Py_ssize_t elsize;\n    Py_ssize_t alignment;\n    void *metadata; Py_ssize_t hash; void *reserved[2];\n    char *subarray;"),
                 ('"numpy.core.multiarray"', '"numpy._core.multiarray"'), ('"numpy.core._internal"', '"numpy._core._internal"'), ("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50")):
        s = s.replace(a, b)
    s = re.sub(r'#include "([^"]+)"', r"#include <pybind11/\1>", s)
    p = os.path.join(d, "numpy.h")
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".%d" % os.getpid(), p)
    return os.path.dirname(d)
def python():
    fl = ["-I" + pb11(), "-I/usr/include/python3.12", "-I" + REPO + "/src/Runtime/python", '-DNUMPY_DIR="%s"' % NUMPY, '-DPYRUNTIME_DIR="%s/src/Runtime/python"' % REPO, "-fvisibility=hidden"]
    return cxx("python", "h_python.cpp", repo_cxx=RTCXX + ["src/Runtime/python/PyExecutionSession.cpp"], repo_c=["src/Support/SmallFPConversion.c"], flags=fl, link=["-lpython3.12"],
        wrap=["dlopen", "dlsym", "dlclose", "PyCapsule_New", "PyUnicode_FromString"])
CHECKS["P19"] = Cfg(python, technique="histories of runs from Python over simulated models with any output ownership and sharing; failing allocations, Python calls and models; arrays and the allocation ledger are checked after every step", rule=RULE,
    states="numbers of inputs, outputs and arrays held, outcome, debug options and fault presence per call", probes=["outputs compared", "model failed", "unsupported input refused", "unsupported output refused"],
    real=["PyExecutionSession.cpp", "PyRuntime.py", "ExecutionSession", "OMTensor", "OMTensorList", "CPython, NumPy, pybind11", "allocator (AddressSanitizer)"], stub=[LOADER, "failures of creating arrays, strings and capsules"],
    assumptions=["a model leaves its inputs alone and hands over no memory of an input", "single-threaded use"], runs={"quick": 20000, "thorough": 2000000})

def threads():
    ps = ["-DUSE_PTHREAD_SPECIFIC"] + ["-D%s=ps_%s" % (n, n) for n in ("log_init", "log_printf", "get_threadid", "get_filename")]
    return sched("threads", "h_threads.cpp", flags=["-I" + SIM + "/stub/zdnn", "-I" + REPO + "/src/Accelerators/NNPA/Runtime"],
        repo_c=["src/Accelerators/NNPA/Runtime/OMRuntimeNNPA.c", "src/Runtime/jni/jnilog.c"] + ["src/Runtime/" + n for n in ("OMSort.c", "OMTopK.c", "OMUnique.c", "OMResize.c", "OMIndexLookup.c", "OMExternalConstant.c")] + ["src/Support/SmallFPConversion.c"],
        repo_cxx=RTCXX, extra_units=[(REPO + "/src/Runtime/jni/jnilog.c", BASE + TSAN + ["-std=gnu11"] + RINC + ps, "clang")],
        wrap=["dlopen", "dlsym", "dlclose", "dlerror", "fopen", "time", "localtime", "localtime_r", "open", "open64", "mmap", "munmap", "close"])
THREADRULE = "a run is one seeded schedule of several tasks with its faults, in its own process; distinct: different event log (operations, task switches, faults, results); non-trivial: at least two operations or one fault that fired"
def cthreads():
    return sched("cthreads", "h_compile.cpp", repo_cxx=["src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp", "src/Runtime/python/PyOMCompile.cpp"],
        flags=["-DTHREADED", "-I" + SIM + "/stub", "-I" + REPO + "/include", "-I" + REPO + "/src/Runtime/python"],
        wrap=["fork", "waitpid", "execvp", "execv", "execve", "execvpe", "open", "open64", "dup2", "gethostname"])
CHECKS["P11"] = Cfg(cthreads, technique="each thread's compile calls run alone and then under seeded schedules with preemption at shared accesses and process calls; the results are compared", rule=THREADRULE,
    states="number of threads, task switches", probes=["succeeded as alone", "failed as alone", "container session", "a call with a fault of its own"],
    real=["OMCompile.cpp", "Command.cpp", "CommandUtils.cpp", "PyOMCompile.cpp", "kernel processes, descriptors and files", "threads"], stub=["the compiler and the container engine", "failures of fork, waitpid, stat, getcwd, fopen and operator new"],
    assumptions=["sequentially consistent memory", "threads write to different directories", "nobody else changes the process environment or directory meanwhile"], runs={"quick": 8000, "thorough": 1000000})
CHECKS["P16"] = Cfg(threads, technique="seeded schedules with preemption at shared accesses over a simulated accelerator, across shutdowns", rule=THREADRULE,
    states="period of use, numbers of models, compatibility, and task switches", probes=["incompatible model refused", "initialised again after a shutdown", "buffer although no aligned memory was available"], real=["OMRuntimeNNPA.c", "threads"], stub=["accelerator library (zDNN)", "scheduler, mutexes"],
    assumptions=["sequentially consistent memory", "the accelerator is shut down only while no thread uses it"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P18"] = Cfg(threads, technique="seeded schedules of logging threads under failing clock, open and allocation; log destinations compared with the calls", rule=THREADRULE,
    states="destination, level, number of threads, faults, task switches", probes=["message longer than the maximum", "clock failed", "fell back to standard error"], real=["jnilog.c (thread-local and thread-specific variants)", "stdio on scratch files"], stub=["clock", "failing fopen and malloc", "scheduler, mutexes"],
    assumptions=["threads live until their log is read: thread identifiers are not reused", "a message has no line break of its own"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P22"] = Cfg(threads, technique="each thread's calls run alone and then under seeded schedules with preemption at shared accesses; the results are compared", rule=THREADRULE,
    states="number of threads, their first calls, task switches", probes=["sort", "top-k", "unique", "inference", "resize by size", "external constant"], real=["OMTensor", "OMTensorList", "OMSort.c", "OMTopK.c", "OMUnique.c", "OMResize.c", "OMIndexLookup.c", "OMExternalConstant.c (mmap)", "SmallFPConversion.c", "ExecutionSession"], stub=[LOADER, "scheduler, mutexes"],
    assumptions=["sequentially consistent memory", "threads share no tensors"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P24"] = Cfg(threads, technique="seeded schedules of threads that open, use and close sessions over a simulated loader with constructors and failing opens and lookups", rule=THREADRULE,
    states="number of threads, user environment, faults, task switches", probes=["failed load", "open failed", "symbol missing"], real=["ExecutionSession", "OMTensor", "OMTensorList", "OMExternalConstant.c (mmap)", "process environment"], stub=[LOADER, "scheduler, mutexes"],
    assumptions=["sequentially consistent memory", "nobody else changes the process environment meanwhile", "a session is used by one thread at a time"], runs={"quick": 20000, "thorough": 2000000})

def jthreads():
    c = sched("jthreads", "h_jni.cpp", repo_c=["src/Runtime/jni/jniwrapper.c", "src/Runtime/jni/jnilog.c", "src/Runtime/OMInstrument.c", "src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c", "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c"],
        flags=["-DTHREADED", "-I" + SIM + "/stub/jni", "-I" + JNI, "-I" + JNI + "/linux"])
    return c
CHECKS["P30"] = Cfg(jthreads, technique="seeded schedules of Java threads calling the bridge, with preemption at shared accesses and at calls into a simulated Java environment that can fail; every call is checked as in P17", rule=THREADRULE,
    states="number of threads, calls per thread, task switches, faults", probes=["outputs compared", "model failed", "invalid input refused", "model without that text"],
    real=["jniwrapper.c", "jnilog.c", "OMTensor.c", "OMTensorList.c", "threads"], stub=["Java virtual machine (one environment per thread; references belong to a thread and call)", "compiled model"],
    assumptions=["sequentially consistent memory", "threads share no tensors", "the model itself may be run by several threads"], runs={"quick": 20000, "thorough": 2000000})

def elements():
    d = "src/Dialect/ONNX/ElementsAttr/"; L = "/usr/lib/llvm-20/"
    inc = ["-isystem", L + "include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE"]
    fl = BASE + TSAN + inc + ["-std=c++17"] + RINC
    c = sched("elements", [], link=["-L" + L + "lib", "-Wl,-rpath," + L + "lib", "-lMLIR", "-lLLVM-20"],
        extra_units=[(os.path.join(HAR, "h_elements.cpp"), fl, "clang++")] + [(REPO + "/" + d + n, fl, "clang++") for n in sorted(os.listdir(REPO + "/" + d)) if n.endswith(".cpp")]
        + [(REPO + "/src/Support/" + n, BASE + inc + ["-std=c++17"] + RINC, "clang++") for n in ("TypeUtilities.cpp", "SmallFP.cpp")] + [(REPO + "/src/Support/SmallFPConversion.c", BASE + ["-std=gnu11"] + RINC, "clang")])
    return c

def driver():
    L = "/usr/lib/llvm-20/"; st = SIM + "/stub/driver"
    inc = ["-isystem", L + "include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", "-I" + st, "-include", st + "/llvm20.h", "-I" + REPO + "/src/Compiler"]
    fl = ["-O1", "-U_FORTIFY_SOURCE", "-w", "-std=c++17"] + inc + RINC
    src = ["Compiler/" + n for n in ("CompilerUtils.cpp", "CompilerOptions.cpp", "OptionUtils.cpp", "JsonConfigObject.cpp", "HeapReporter.cpp", "Command.cpp", "CommandUtils.cpp")] + ["Builder/ModelInputShaper.cpp", "Support/TypeUtilities.cpp"]
    return cxx("driver", [], asan=False, sim=("simkit.cpp", "simalloc.cpp"), wrap=["fork", "waitpid", "execvp", "execv", "execve"],
        link=["-rdynamic", "-L" + L + "lib", "-Wl,-rpath," + L + "lib", "-lMLIR", "-lLLVM-20"],
        extra_units=[(os.path.join(HAR, "h_driver.cpp"), fl, "clang++"), (REPO + "/src/onnx-mlir.cpp", fl + ["-Dmain=onnx_mlir_main"], "clang++")] + [(REPO + "/src/" + n, fl, "clang++") for n in src])

def importer():
    L = "/usr/lib/llvm-20/"; st = SIM + "/stub/import"
    inc = ["-I" + st, "-isystem", L + "include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", "-DONNX_NAMESPACE=onnx", "-DONNX_ML=1"]
    fl = BASE + ASAN + inc + ["-std=c++17"] + RINC; d = REPO + "/src/Dialect/ONNX/ElementsAttr/"
    return cxx("importer", [], asan=True, link=["-rdynamic", "-L" + L + "lib", "-Wl,-rpath," + L + "lib", "-lMLIR", "-lLLVM-20", "-lonnx_proto", "-lprotobuf"],
        extra_units=[(os.path.join(HAR, "h_import.cpp"), fl, "clang++"), (REPO + "/src/Builder/FrontendDialectHelper.cpp", fl, "clang++")] + [(d + n, fl, "clang++") for n in sorted(os.listdir(d)) if n.endswith(".cpp")]
        + [(REPO + "/src/Support/" + n, fl, "clang++") for n in ("TypeUtilities.cpp", "SmallFP.cpp")] + [(REPO + "/src/Support/SmallFPConversion.c", BASE + ASAN + ["-std=gnu11"] + RINC, "gcc")])

def config_():
    L = "/usr/lib/llvm-20/"; st = SIM + "/stub/"
    inc = ["-I" + st + "config", "-isystem", L + "include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", "-I" + st + "driver", "-include", st + "driver/llvm20.h", "-I" + REPO + "/src/Compiler"]
    fl = BASE + ASAN + inc + ["-std=c++17"] + RINC; n = "/src/Accelerators/NNPA/"
    return cxx("config", [], asan=True, link=["-rdynamic", "-L" + L + "lib", "-Wl,-rpath," + L + "lib", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-lMLIR", "-lLLVM-20"],
        extra_units=[(os.path.join(HAR, "h_config.cpp"), fl, "clang++")] + [(REPO + x, fl, "clang++") for x in (n + "Compiler/NNPACompilerUtils.cpp", n + "Compiler/NNPACompilerOptions.cpp", n + "Compiler/NNPAJsonConfigObject.cpp",
            n + "Conversion/ONNXToZHigh/QuantOpSelection.cpp", n + "Conversion/ONNXToZHigh/GenerateConfigFile.cpp", n + "Conversion/ONNXToZHigh/DevicePlacement.cpp", "/src/Compiler/JsonConfigObject.cpp", "/src/Compiler/CompilerOptions.cpp", "/src/Compiler/OptionUtils.cpp")])

def ops():
    L = "/usr/lib/llvm-20/"; inc = ["-isystem", L + "include", "-D_GNU_SOURCE"]
    return cxx("ops", "h_ops.cpp", repo_cxx=["src/Runtime/OMTensor.cpp", "src/Runtime/OMTensorList.cpp", "src/Runtime/OnnxDataType.cpp", "src/Runtime/OMTensorHelper.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.cpp"],
        repo_c=["src/Support/SmallFPConversion.c"] + ["src/Runtime/" + n for n in ("OMSort.c", "OMTopK.c", "OMUnique.c", "OMResize.c", "OMIndexLookup.c")], flags=inc, wrap=["rand"],
        link=["-L" + L + "lib", "-Wl,-rpath," + L + "lib", "-lLLVM-20"])
CHECKS["P29"] = Cfg(ops, technique="seeded histories of calls with undefined memory contents and small caller stacks; every result compared with an executable model of the operation", rule=RULE,
    states="operation, element type, rank and options per call", probes=["sort", "top-k", "unique", "unique by axis", "large unique", "outputs left out", "linear", "cubic", "string lookup", "integer lookup", "portable sort", "not-a-number"],
    real=["OMSort.c", "OMTopK.c", "OMUnique.c", "OMResize.c", "OMIndexLookup.c", "PerfectHash.cpp", "OMTensor", "allocator (AddressSanitizer)", "threads with small stacks"], stub=["contents of fresh memory", "rand"],
    assumptions=["inputs are stored contiguously, as compiled code stores them", "no not-a-number and no negative zero where the order or equality of values matters", "interference among threads: P22"], runs={"quick": 40000, "thorough": 4000000})

def zdnn():
    d = "src/Accelerators/NNPA/Runtime/zdnnx/"
    fl = BASE + ["-fsanitize=thread", "-fopenmp", "-DZDNNX_WITH_OMP", "-include", "string.h", "-Dmemcpy=sim_memcpy", "-std=gnu11"] + RINC + ["-I" + SIM + "/stub/zdnn"]
    return sched("zdnn", "h_zdnn.cpp", flags=["-I" + SIM + "/stub/zdnn", "-I" + REPO + "/src/Accelerators/NNPA/Runtime/zdnnx"],
        extra_units=[(REPO + "/" + d + n, fl, "gcc") for n in ("omp_ops.c", "seq_ops.c", "utils.c", "zdnnx.c", "zdnnx_ops.c", "zdnnx_ops_private.c")])
CHECKS["P27"] = Cfg(importer, technique="simulated model directories with files that are missing, short, linked from elsewhere or described wrongly, and failing, short and interrupted opens, reads, mappings and inspections; every constant read back after its file is gone", rule=RULE,
    states="kind of tensor and whether it was imported", probes=["imported", "imported from a file", "stopped", "mapped"],
    real=["FrontendDialectHelper.cpp", "ElementsAttr/*.cpp", "MLIR, LLVM (file access) and protobuf libraries", "files of the model directory"], stub=["the ONNX dialect (a dialect with the pool and the string type)", "failures and short counts of open, read, mmap, stat, lstat, fstat", "abort, exit and failed assertions (end the import)"],
    assumptions=["assertions enabled, as documented", "the model's files do not change while imported", "little-endian host"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P28"] = Cfg(config_, technique="simulated directories of configuration files with failing, short and interrupted opens, reads, writes, inspections and closes over seeded histories of loads, stores, passes and compilations; placements compared with a reference evaluation of the rules", rule=RULE,
    states="number of files and objects, compilation done, fault presence, after each operation", probes=["loaded", "load failed", "stored", "store failed", "matched", "saved and reloaded", "distinct operations reloaded", "save failed", "compiled with a configuration", "compiled without a configuration"],
    real=["JsonConfigObject.cpp", "NNPAJsonConfigObject.cpp", "QuantOpSelection.cpp", "DevicePlacement.cpp", "GenerateConfigFile.cpp", "NNPACompilerUtils.cpp", "CompilerOptions.cpp", "MLIR and LLVM libraries (passes, JSON, regular expressions, file streams)", "files of the run's directory"],
    stub=["the ONNX dialect (operations known by name)", "the cost model (matrix products nobody placed go to the accelerator)", "legality of accelerator operations", "failures and short counts of open, read, write, mmap, stat, fstat, close", "abort, exit and failed assertions (end the run)"],
    assumptions=["one compilation per process", "configuration files do not change while read"], runs={"quick": 40000, "thorough": 4000000})
CHECKS["P26"] = Cfg(driver, technique="simulated tools (optimiser, code generator, linker, archiver, jar) that stop at any step; failing, short and interrupted disk operations of the driver; outputs are traced back to the model", rule=PROCRULE,
    states="target, result, failing tool and step, fault presence and preserved files per compilation", probes=["compiled", "failed", "failed after a fault"],
    real=["onnx-mlir.cpp (main)", "CompilerUtils.cpp", "CompilerOptions.cpp", "Command.cpp", "JsonConfigObject.cpp", "LLVM and MLIR: parser, printer, translation, bitcode, file streams"], stub=["importer of ONNX files", "passes", "opt, llc, linker, ar, jar", "failures of disk and process calls"],
    assumptions=["one compilation at a time per output directory", "a tool that exits with 0 has written its output", "compilation with one thread"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P14"] = Cfg(elements, technique="seeded schedules of threads that create, attach and drop constants over the real pool, with collections, scrubs and closes between them; release and identity are compared with reachability", rule=THREADRULE,
    states="worker threads, client threads, phases, task switches", probes=["all released by scrubbing", "all released by collection", "closed"], real=["DisposablePool.cpp", "DisposableElementsAttr.cpp", "ElementsAttrBuilder.cpp", "MLIR context, attributes and operations"], stub=["MLIR's thread pool", "the ONNX dialect (a dialect of the harness owns the pool)", "scheduler, mutexes"],
    assumptions=["sequentially consistent memory", "collections and scrubs run while no other thread uses the pool, as passes do"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P25"] = Cfg(elements, technique="seeded histories of operations on constants by several threads over a simulated worker pool that stalls and shrinks; every result is compared with a reference model", rule=THREADRULE,
    states="worker threads, client threads, task switches", probes=["large constant", "matMul", "reduce", "gather", "scatterND", "nonZero", "pad", "slice"], real=["ElementsAttrBuilder.cpp", "DisposableElementsAttr.cpp", "DisposablePool.cpp", "Strides.cpp", "BType.cpp", "WideNum.cpp", "SmallFP.cpp", "MLIR library"], stub=["MLIR's thread pool", "the ONNX dialect (a dialect of the harness owns the pool)", "scheduler, mutexes"],
    assumptions=["sequentially consistent memory", "values small enough that no type rounds or overflows"], runs={"quick": 20000, "thorough": 2000000})
CHECKS["P15"] = Cfg(zdnn, technique="seeded schedules of the tile threads and of several users over a simulated accelerator with exact arithmetic that fails, warns and refuses; every output is compared with the operation on whole tensors", rule=THREADRULE,
    states="operation, threads, status, dimensions split, tile size, task switches", probes=["element-wise compared", "matrix product compared", "own tiles compared", "failure reported", "several tiles", "big tensors", "full scale"],
    real=["omp_ops.c", "seq_ops.c", "zdnnx.c", "zdnnx_ops.c", "zdnnx_ops_private.c", "utils.c"], stub=["accelerator library (zDNN): geometry as documented, exact 16-bit integer arithmetic", "OpenMP runtime", "scheduler"],
    assumptions=["sequentially consistent memory", "memory for tile buffers is available", "tensors concurrent calls share are inputs only"], runs={"quick": 20000, "thorough": 2000000})

def py(harness):
    """A Python harness: nothing to build; the package's source is compiled by each worker."""
    return lambda prop: [sys.executable or "python3", "-B", os.path.join(HAR, harness), "--prop", prop]
PYENV = {"PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1", "VERIF_REPO": REPO}
PYRULE = "a run is one seeded history of operations by successive simulated processes with its faults and crash points, in its own process; distinct: different event log (operations, file effects, faults); non-trivial: at least two operations or one fault that fired"
PYSTUB = ["torch, ONNX and om_pyrt modules (compiler and inference session that read and write real files)", "process death at a file operation", "failures and short counts of file operations", "directory order, temporary names, clock"]
CHECKS["P12"] = Cfg(cmd=py("py_cache.py"), env=PYENV, technique="simulated processes over one cache directory with crashes and failing disk operations, compared with a least-recently-used reference cache", rule=PYRULE,
    states="capacity, entries in memory in order of use, versions on disk per key, after each operation", probes=["memory hit", "disk hit", "miss", "stored", "put raised", "victim evicted", "restart after crash", "re-store of a looked-up entry"],
    real=["sessioncache.py", "shutil, json, pathlib, io buffering", "files in a scratch directory"], stub=PYSTUB, assumptions=["one process uses the cache directory at a time", "a key names one graph"], recheck=100, runs={"quick": 12000, "thorough": 1000000})
CHECKS["P13"] = Cfg(cmd=py("py_cache.py"), env=PYENV, technique="simulated processes that die before, in the middle of or after any file operation of a store; each later lookup is compared with the stores that were attempted and completed", rule=PYRULE,
    states="as P12", probes=["disk hit", "miss", "stored", "put raised", "restart after crash", "shared working directory"],
    real=["sessioncache.py", "shutil, json, pathlib, io buffering", "files in a scratch directory"], stub=PYSTUB,
    assumptions=["process death, not loss of power: written data survives", "one process uses the cache directory at a time", "the compiled library is named model<key>.so, as the backend names it"], recheck=100, runs={"quick": 12000, "thorough": 1000000})
CHECKS["P21"] = Cfg(cmd=py("py_backend.py"), env=PYENV, technique="simulated exporter, compiler and inference session that compute the exported program exactly; every answer is compared with the original graph over histories of calls, failures, crashes and restarts", rule=PYRULE,
    states="capacity, last models run, kind of answer per call", probes=["eager", "compiled now", "loaded from disk", "memory hit", "call raised", "restart after crash"],
    real=["backend.py", "fx_utils.py", "onnx_utils.py", "sessioncache.py", "tempfile, shutil, json"], stub=PYSTUB + ["exporter, FX graphs and tensors with exact integer arithmetic"],
    assumptions=["a traced graph is not changed afterwards", "a frozen scalar input keeps its value", "one process uses the cache directory at a time", "the stand-ins for torch follow its documented interfaces"], recheck=100, runs={"quick": 10000, "thorough": 1000000})

CHECKS["P31"] = Cfg(cmd=py("py_client.py"), env=PYENV, technique="simulated compiler processes, container engines and runtime behind the real client, with any of them failing, over histories of models, outputs and sessions", rule=PYRULE,
    states="way of compiling, outcome, fault, explicit output, live sessions", probes=["session opened", "failure reported", "library opened", "run compared", "missing inputs refused"],
    real=["onnxmlirdocker.py", "tempfile, shlex, os.path", "files in a scratch directory"], stub=["compiler process", "docker and podman packages and their engines", "PyRuntime"],
    assumptions=["a compiler that reports success has written its output", "one session is opened at a time", "a library is not overwritten while a session uses it, except by a session the history opens"], recheck=100, runs={"quick": 10000, "thorough": 1000000})

def get(prop): return CHECKS[prop]
