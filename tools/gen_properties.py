#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Source of truth for the property texts."""
import json, os
R = "src/Runtime/"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
props = []
add = lambda *a, **k: props.append(P(*a, **k))

add("P01", "Loading a model is all-or-nothing, whatever step of it fails",
 "Creating an inference session from a compiled model library either yields a usable session or reports an error, and after a failed attempt the process is as it was before: the same environment variables, and no library handle left open. A later load of any model therefore behaves exactly as if the failed attempt had never been made, including where that model looks for its external constants. Destroying a session closes its library exactly once, and destroying a session that never loaded a model touches nothing.",
 ["fault_sequences", "histories"],
 "All sequences of session creations, queries and destructions over several model libraries, with any subset of library-open, symbol-lookup and allocation steps failing.",
 "Tests load one good library; which of the ~6 load steps fails, after which earlier attempts, is a combinatorial history no test samples.",
 [R+"ExecutionSession.cpp", R+"ExecutionSession.hpp", R+"OMExternalConstant.c"],
 [("load steps and the temporary constant-path environment variable", R+"ExecutionSession.cpp:loadModel"),
  ("library close", R+"ExecutionSession.cpp:~ExecutionSession"),
  ("constants looked up by the library constructor through the environment", R+"OMExternalConstant.c:omLoadConstantData")],
 [("OM_CONSTANT_PATH", "directory the next library constructor loads constants from", R+"ExecutionSession.cpp:loadModel"),
  ("_sharedLibraryHandle", "the open library", R+"ExecutionSession.hpp")],
 ["process environment", "balance of library opens and closes", "exceptions seen by the caller"])

add("P02", "Every inference call returns the result or an error, and conserves memory",
 "Each run of a session either returns exactly the list of tensors the model produced or raises an error that reports the error number the model left behind; a model that fails is never reported as success, nor the reverse. In both cases each tensor, data buffer and list has exactly one owner afterwards: nothing is leaked, released twice, or released while the caller still holds it, inputs stay readable and unchanged, and the session can be used again.",
 ["fault_sequences", "histories"],
 "All sequences of runs (both the owning-vector and the list interface, plain and debug) over models that succeed, fail with any error number, or share buffers, with allocations failing at any point.",
 "Ownership after a failure depends on which of the interleaved allocation and model failures happened; tests only run successful models once.",
 [R+"ExecutionSession.cpp", R+"ExecutionSession.hpp", R+"OMTensor.inc", R+"OMTensorList.inc"],
 [("vector run wraps and unwraps tensors", R+"ExecutionSession.cpp:run(std::vector)"),
  ("list run", R+"ExecutionSession.cpp:runImplementation"),
  ("error text from errno", R+"ExecutionSession.cpp:reportErrnoError")],
 None, ["allocation ledger", "returned tensors", "exception text"])

add("P03", "A guarded debug run survives every crash of the model, repeatedly",
 "A debug inference run with signal handling on turns any segmentation fault, bus error, floating-point error, illegal instruction or abort raised while the model runs into an error naming that signal. Afterwards - whether the model crashed, failed or succeeded - every signal disposition and the signal mask of the process are what they were before the call. The guarantee holds for any number of further guarded runs, including repeated crashes with the same signal.",
 ["histories", "fault_sequences"],
 "All sequences of guarded and unguarded runs in which the model raises any of the five signals at any point, returns an error, or succeeds, under arbitrary pre-installed handlers and masks.",
 "The damage of a wrong restore only shows in a later call or a later unrelated signal, so a test of one crashing call passes.",
 [R+"ExecutionSession.cpp", R+"ExecutionSession.hpp"],
 [("install, jump out, restore", R+"ExecutionSession.cpp:runWithSignalHandler"),
  ("handler", R+"ExecutionSession.cpp:signalHandler")],
 None, ["signal dispositions and mask before/after", "exception text", "process survival"])

add("P04", "External constants are loaded completely or not at all",
 "Loading a model's external constants reports success only if the whole constant data of the requested size is available at the returned address with exactly the file's bytes, taken from the configured directory or, if none is configured, from the given file name. Every failure (file missing, unreadable, too short, wrong byte order, no memory, mapping refused) is reported, leaves the address empty so that a later attempt can succeed, and releases the file and every temporary. Loading twice keeps the first data, and unloading releases it exactly once and permits a reload.",
 ["fault_sequences", "histories"],
 "All sequences of load, address lookup and unload over several constant files with any system call failing, files of any length relative to the requested size, and any change of the configured directory.",
 "Tests would need a failing or truncated file at each call site and a retry afterwards; the suite has none.",
 [R+"OMExternalConstant.c"],
 [("open, size, map", R+"OMExternalConstant.c:omLoadConstantData"),
  ("address of one constant", R+"OMExternalConstant.c:omGetExternalConstantAddr"),
  ("unmap", R+"OMExternalConstant.c:omUnloadConstantData")],
 [("constAddr[0]", "base of the loaded constants, or null", R+"OMExternalConstant.c")],
 ["returned flag, address and bytes", "open descriptors, mappings and heap after the call"])

add("P05", "The performance report records every event once, in order",
 "For an inference run with instrumentation on that is followed by a request for the report, the report contains one time line per reported time event - the before and the after of each instrumented operation, including operations nested in or repeated inside one another - in the order in which the events happened, each with the right operation name, node name and the clock's own elapsed times; memory events likewise have their own lines in order, marked as errors when the memory query failed (after twenty failures they may stop). This holds however many events a run has, across any number of runs and report requests, in whatever file or stream was configured at the start of each report, and the number of open files does not grow with the number of runs. Of a run for which no report was requested, events may be missing.",
 ["histories", "fault_sequences"],
 "All event sequences of any length and nesting over any number of runs, any settings of the instrumentation environment variables, any clock behaviour, and failures of opening the report file or of the memory query.",
 "The buffer spans runs and only flushes when full or at the end; the existing test uses a handful of adjacent before/after pairs.",
 [R+"OMInstrument.c", "include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"],
 [("event buffer and merging", R+"OMInstrument.c:updateRecordBuffer"),
  ("printing and draining", R+"OMInstrument.c:flushRecordBuffer"),
  ("report end and state reset", R+"OMInstrument.c:omInstrumentPrint")],
 [("timeRecordBuffer", "events not yet printed", R+"OMInstrument.c")],
 ["lines written to the configured stream", "open file count"])

add("P06", "Tensor and tensor-list operations are safe when memory runs out",
 "Every operation that creates or copies a tensor or a tensor list either returns a complete object or reports failure with no object, and a failure releases everything the attempt had allocated and leaves the caller's buffers, tensors and lists untouched and still owned by the caller. An object that owns its data releases it exactly once when destroyed and an object that does not never releases it, through any history of ownership changes and through lists that own or merely wrap their tensors. The shape, strides, type, size and data pointers read back are always those last set.",
 ["histories", "fault_sequences"],
 "All sequences of create, copy, set, list-create, destroy and shallow-destroy calls over tensors of any rank and type with any allocation failing.",
 "A double release or leak depends on the combination of ownership flags, history and the failing allocation.",
 [R+"OMTensor.inc", R+"OMTensorList.inc"],
 [("constructors with several allocations", R+"OMTensor.inc:omTensorCreateWithOwnership"),
  ("destruction by ownership", R+"OMTensor.inc:omTensorDestroy"),
  ("deep and shallow list destruction", R+"OMTensorList.inc")],
 None, ["allocation ledger", "getters after every step"])

add("P07", "Generated debug inputs match the signature and are reproducible",
 "Generating debug inputs for a model signature yields one tensor per signature entry with the entry's type, its shape after the given shape overrides, and every value within the effective bounds (bounds being representable in the entry's type); any invalid request or failed allocation is reported as failure with nothing leaked. With a given seed the generated data depends only on the seed and the request, never on what was generated before; without a seed the data comes from the system's entropy source.",
 ["histories", "fault_sequences"],
 "All histories of seeded and unseeded generation requests with any signature, shape, value and bound options, any entropy returned by the system and any failing allocation.",
 "Reproducibility is a statement about pairs of histories, and the entropy source and allocator are outside a test's control.",
 [R+"OMTensorListHelper.cpp", R+"OMTensorHelper.cpp", R+"ExecutionSession.cpp"],
 [("request parsing and tensor construction", R+"OMTensorListHelper.cpp:omTensorListCreateFromInputSignature"),
  ("generator state", R+"OMTensorHelper.cpp:omDefineSeed"),
  ("session entry", R+"ExecutionSession.cpp:fillInputDebug")],
 None, ["tensors returned", "allocation ledger"])

add("P08", "Running an external command reports exactly what the command did",
 "Running an external program starts it once with exactly the given arguments in the requested working directory and, if asked, with its standard output and error in the given file; the call returns the program's own exit status, the documented distinct status when the program cannot be found or executed, or raises an error when it was killed by a signal or could not be started. This is so even if waiting is interrupted or a system call fails, and afterwards the caller's working directory, open files and buffered output are as before: the failed child never runs the caller's exit handlers or repeats its output, and no child is left unwaited.",
 ["fault_sequences", "histories"],
 "All sequences of commands that exit, crash or cannot start, under interrupted waits and failing directory, process, file and descriptor calls.",
 "Interrupted waits and failing system calls cannot be provoked by ordinary tests.",
 ["src/Compiler/Command.cpp", "src/Compiler/Command.hpp"],
 [("fork, redirect, exec, wait, decode", "src/Compiler/Command.cpp:exec")],
 None, ["return value or exception", "what the child process received", "working directory, descriptors, children"])

add("P09", "A compile session claims success only for a model it really compiled",
 "Compiling a model through a compile session succeeds only if the compiler ran on that model with the requested flags, ended with success, and its output file is there; then the session reports that file's absolute name, its tag and - if one was produced beside it - its constants file, also by an absolute name. If the compiler fails, crashes, is killed at any point, or cannot be run, the call raises an error and the session no longer reports any output from this or an earlier compilation. A later successful compile of the same session works normally.",
 ["fault_sequences", "histories"],
 "All sequences of compilations by one or more sessions over compilers that succeed, fail, crash or are killed at any point of producing their output, with any combination of output path, log file, flags and working directory, and failing system calls.",
 "The outcome depends on where the compiler dies and on what earlier compilations left behind.",
 ["src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/Command.cpp"],
 [("compile, check status and output", "src/Compiler/OMCompile.cpp:compile"),
  ("accessors guarded by success", "src/Compiler/OMCompile.cpp:getOutputFilename")],
 [("successfullyCompiled", "whether outputs may be reported", "include/onnx-mlir/Compiler/OMCompile.hpp")],
 ["exceptions and accessors", "files the simulated compiler wrote"])

add("P10", "Container compilation uses only an engine and image that really work",
 "A compile session in container mode is created only if the requested (or, by default, the first working) container engine runs and the image is present locally or, when permitted, was just pulled successfully; otherwise creation reports an error. Each compilation then starts exactly one container of that engine and image, with the model's and the output's directories mounted at the paths the compiler is given (translated to host paths when running inside a container), and its outcome is reported as for a local compilation.",
 ["fault_sequences", "configurations"],
 "All combinations of installed, broken or failing engines, absent, pullable or unpullable images, pull permission, nesting in a container, and engine or container failures at any step.",
 "No container engine exists in the test environment; the failure combinations are never run.",
 ["src/Compiler/OMCompile.cpp"],
 [("engine detection, image check, pull", "src/Compiler/OMCompile.cpp:verifyContainerSetup"),
  ("container command", "src/Compiler/OMCompile.cpp:createContainerCompileCommand")],
 None, ["commands received by the simulated engines", "exceptions"])

add("P11", "Independent compile sessions in different threads do not disturb each other",
 "Compile sessions used concurrently from different threads, each thread with its own session, all obtain the result they would obtain alone: every compiler is run with its own model, flags and output, each session reports its own output and error, and none observes a change of working directory or a status caused by another.",
 ["schedules", "fault_sequences"],
 "All interleavings of compilations by several threads, with compilers that succeed or fail.",
 "Interference needs a particular interleaving of process creation, waiting and bookkeeping.",
 ["src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp"],
 [("per-session state and process execution", "src/Compiler/OMCompile.cpp:compile")],
 None, ["per-thread results", "commands received by the simulated compilers"])

add("P12", "The model-session cache is a bounded least-recently-used cache",
 "The in-memory session cache never holds more entries than its capacity, including entries brought back from disk; when an entry must go, it is the one unused for longest; looking up a key returns the entry last stored under it and nothing else. Storing, looking up, evicting, removing and clearing in any order keep its bookkeeping consistent, so that no later operation fails or evicts a wrong entry.",
 ["histories", "fault_sequences"],
 "All sequences of lookup, eviction, store, re-store, remove, clear and restart over any capacity, with disk operations failing.",
 "Eviction order errors need a history longer than the capacity with re-use of keys and disk reloads.",
 [R+"python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"],
 [("eviction", "sessioncache.py:SessionCache.victim"), ("lookup and promotion", "sessioncache.py:SessionCache.get"),
  ("store", "sessioncache.py:SessionCache.put")],
 [("access_order", "keys from least to most recently used", "sessioncache.py")],
 ["returned entries", "cache length and membership"])

add("P13", "A cached model on disk is complete or absent after any crash",
 "However and whenever the process dies or a disk operation fails while a compiled model is being stored in the on-disk cache, a later process that looks the model up gets either no entry or an entry whose library, constants file and recorded input selection are all complete and belong together; the lookup never fails because of leftovers. A model whose storing completed is found again by every later process, and looking up one key never returns another key's model.",
 ["crash_points", "fault_sequences", "histories"],
 "All crash points and disk faults inside any sequence of stores and lookups by successive processes.",
 "Needs a crash at each of the file operations of a store followed by a restart.",
 [R+"python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"],
 [("store", "sessioncache.py:SessionCache.write_to_disk"), ("reload", "sessioncache.py:SessionCache.load_from_disk")],
 None, ["result of a lookup in a fresh process"])

add("P14", "The pool of disposable constants is safe under concurrent use",
 "Constants created concurrently from any number of threads each get an identity of their own and keep their value until the pool is told they are unreachable; garbage collection releases exactly the unreachable ones; scrubbing replaces every reachable constant in the module by a permanent one with the same type and values, exactly once, whatever the number and schedule of worker threads, and releases all of them. After closing, creation still returns the right value, as a permanent constant; no access to the pool's shared state is unsynchronised.",
 ["schedules", "histories"],
 "All interleavings of creating threads and of scrub workers, over any sequence of creations, collections, scrubs and close.",
 "Tests run one schedule chosen by the operating system and the small sizes that give a single batch.",
 ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp", "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
 [("creation and registration", "DisposablePool.cpp:createElementsAttr"), ("batched parallel scrub", "DisposablePool.cpp:scrub"),
  ("collection", "DisposablePool.cpp:garbageCollectUnreachable")],
 [("pool", "registered constants by identity", "DisposablePool.hpp"), ("active", "whether registration is allowed", "DisposablePool.hpp")],
 ["attributes in the module", "values read", "buffer release"])

add("P15", "Tiled parallel accelerator operations equal the untiled operation",
 "An accelerator operation that the runtime splits into tiles and runs on several threads - matrix multiply in all its layouts (plain, broadcast, transposed, quantized), element-wise and activation operations - produces in every element exactly what the same operation on the whole tensor produces, for every shape, tile size, configured thread count (invalid settings included) and interleaving of the threads, and when the system grants fewer threads than asked. When the accelerator reports a warning or failure for any tile, the operation returns the most severe of them. It touches no memory outside its tensors and releases every tile buffer.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All interleavings of the tile threads, with device statuses failing at any tile, for any tensor shapes, layouts and configured thread counts, with any tile finishing in any order.",
 "The accelerator library and hardware are absent from the test environment, and last-tile and thread-order errors need particular shapes and schedules.",
 ["src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c", "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c", "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops.c", "src/Accelerators/NNPA/Runtime/zdnnx/utils.c"],
 [("parallel tile loops", "omp_ops.c"), ("tile geometry, copy, release", "zdnnx.c"), ("dispatch", "zdnnx_ops.c")],
 None, ["output tensors", "allocation ledger", "canaries around buffers"])

add("P16", "The accelerator is initialised once, before any use, from any threads",
 "However many threads start inference at once, the accelerator is initialised exactly once (again only after a shutdown), and no thread is told it may proceed before that initialisation has finished. The compatibility check never refuses a model whose required version the accelerator can run. Until one model has been found compatible (all models of a process are then assumed to be for the same accelerator) it refuses every other, with the not-permitted error number, on every thread and on every attempt. A working buffer for a model has at least the requested size, starts at a huge page when it is a megabyte or more, and is an ordinary buffer when no aligned memory is available.",
 ["schedules", "histories"],
 "All interleavings of initialisation, compatibility checks and shutdown from several threads, with compatible and incompatible versions and accelerators; sizes of buffers, and failing allocations.",
 "The window between the unlocked test and the locked initialisation is a few instructions.",
 ["src/Accelerators/NNPA/Runtime/OMRuntimeNNPA.c"],
 [("double-checked initialisation", "OMRuntimeNNPA.c:OMInitAccelNNPA"), ("version check", "OMRuntimeNNPA.c:OMInitCompatibleAccelNNPA"), ("buffers", "OMRuntimeNNPA.c:OMHugePageMalloc")],
 [("OMIsInitAccelNNPA", "accelerator initialised", "OMRuntimeNNPA.c")],
 ["initialisation calls on the simulated accelerator", "return values and errno"])

add("P17", "The Java bridge returns a result or throws, and gives everything back",
 "Each call from Java into a model returns the model's tensors converted exactly (type, shape, strides, bytes) or returns nothing with a Java exception pending, and makes no call into Java that is not allowed while an exception is pending. Empty tensors, and models without inputs or outputs, are no errors; null arguments and null or invalid tensors are. On success and on every failure - of a Java call, an allocation or the model - every array and string borrowed from Java is given back, every native tensor, list and buffer is released exactly once, and buffers owned by Java are not released.",
 ["fault_sequences", "inputs"],
 "All models and inputs with any call into the Java environment, any allocation or the model itself failing.",
 "A Java virtual machine cannot be made to fail at each of some forty call sites.",
 [R+"jni/jniwrapper.c"],
 [("conversion to native", R+"jni/jniwrapper.c:omtl_java_to_native"), ("conversion to Java", R+"jni/jniwrapper.c:omtl_native_to_java"),
  ("entry points", R+"jni/jniwrapper.c:Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni")],
 None, ["calls received by the simulated Java environment", "allocation ledger"])

add("P18", "Java-bridge logging never harms the caller, on any thread",
 "Logging in the Java bridge writes each message whose level is enabled completely and once, as one line, to the destination configured for the calling thread - a separate file per thread when a file is configured - and writes no others. A message longer than the documented maximum is cut, but still one line. If the destination cannot be opened, memory is short or the clock fails, logging falls back or degrades but never stops the calling thread or corrupts memory, for messages of any length.",
 ["schedules", "fault_sequences", "inputs"],
 "All interleavings of initialising and logging threads, all levels and message lengths, with failing file, memory and clock calls.",
 "Per-thread state and failing destinations are not exercised by any test.",
 [R+"jni/jnilog.c", R+"jni/jnilog.h"],
 [("per-thread initialisation", R+"jni/jnilog.c:log_init"), ("message formatting", R+"jni/jnilog.c:log_printf")],
 None, ["bytes written per destination", "process survival"])

add("P19", "The Python session conserves buffers and reports every failure",
 "Running a model from Python returns arrays holding exactly the model's outputs, which stay valid as long as Python references them and are released exactly once afterwards, also when outputs share a buffer, are constant or are copied. If an input is unsupported, an allocation fails or the model fails, a Python exception is raised, the input arrays are unchanged and everything allocated for the call is released; the session remains usable.",
 ["fault_sequences", "histories"],
 "All sequences of calls over models with any output ownership and sharing, any input kinds, with allocations or the model failing at any point.",
 "The leak or double release depends on output ownership and on the point of failure.",
 [R+"python/PyExecutionSession.cpp"],
 [("input conversion, run, output ownership", R+"python/PyExecutionSession.cpp:pyRunImplementation")],
 None, ["arrays", "allocation ledger"])

add("P20", "Seeded random operators depend only on their seed",
 "A model's random-number operator given a seed (an integer of at least two), used by one thread at a time, fills its output with values that depend only on the seed, the element type and the distribution parameters - not on what was generated before, by this or another operator - and every value lies in the requested range (uniform) or is finite (normal).",
 ["histories"],
 "All histories of random operator calls in one process with any seeds, types, sizes and parameters, interleaved with other users of the process's random generator.",
 "Reproducibility is a statement about pairs of histories in one process.",
 [R+"OMRandomNormal.c", R+"OMRandomUniform.c"],
 [("normal", R+"OMRandomNormal.c"), ("uniform", R+"OMRandomUniform.c")],
 None, ["output buffers after different histories"])

add("P21", "The PyTorch backend always runs the model compiled for its inputs",
 "Calling a model through the PyTorch backend returns what the model compiled for that very graph and input shapes computes, or falls back to the original computation or raises; it never runs a session compiled for another graph, even after evictions, failed compilations, restarts with a warm or damaged cache, or several models sharing one cache. A model that cannot be exported or compiled falls back; that leaves cached models intact and later calls working.",
 ["histories", "fault_sequences", "crash_points"],
 "All sequences of calls over several graphs and shapes, cache capacities and restarts, with exports, compilations, loads and disk operations failing.",
 "Needs long histories over a bounded cache with injected compiler failures.",
 [R+"python/torch_onnxmlir/src/torch_onnxmlir/backend.py", R+"python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"],
 [("lookup, eviction, compile, store", "backend.py:TorchONNXMLIR.forward")],
 None, ["which compiled artefact each call ran"])

add("P22", "Inference calls from several threads do not interfere",
 "Runtime functions called by models running concurrently in different threads on their own tensors - tensor and list creation and destruction, element access, sorting, top-k, unique, index lookup, resizing - give each thread exactly the results it gets alone, under every interleaving, and threads that concurrently load the same external constants all end up with the complete data.",
 ["schedules"],
 "All interleavings, at the granularity of single memory accesses, of threads each running its own sequence of runtime calls.",
 "Interference through a shared buffer or static needs a particular interleaving.",
 [R+"OMTensor.inc", R+"OMTensorList.inc", R+"OMSort.c", R+"OMTopK.c", R+"OMUnique.c", R+"OMIndexLookup.c", R+"OMResize.c", R+"OMExternalConstant.c"],
 [("runtime entry points", R)],
 None, ["each thread's outputs against its solo run"])

add("P23", "Reusing a compiled model never skips a needed compilation",
 "Asking for a compilation with reuse of an existing result returns the existing library without compiling only if that library exists where the compilation would have put it; otherwise the model is compiled exactly once, and success or failure is reported as for a compilation without reuse. This is so also when the model is named only among the flags.",
 ["histories", "fault_sequences"],
 "All histories of compilations with and without reuse over several models, flags, output paths and working directories, with the compiler failing or killed and the output removed in between.",
 "Depends on which earlier compilation left what behind.",
 [R+"python/PyOMCompile.cpp", "src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp"],
 [("reuse test", R+"python/PyOMCompile.cpp"), ("output prediction", "src/Compiler/OMCompile.cpp:predictOutputFilename")],
 None, ["compilations received by the simulated compiler", "returned file"])

add("P24", "Sessions opened, used and closed in different threads do not disturb each other",
 "When several threads open, use and close their own sessions, for the same or different models, each open succeeds or fails exactly as it would alone: a model's constants are looked for in the user's configured directory or else in the model's own, never in another model's. Each inference and signature query answers for its own model. After all sessions have ended every library is closed and the process environment is as it was, also if some of the opens failed.",
 ["schedules", "fault_sequences"],
 "All interleavings of opening, using and closing sessions by several threads, with opens and symbol lookups failing.",
 "The interference needs another thread to run while one model is being loaded.",
 [R+"ExecutionSession.cpp", R+"OMExternalConstant.c"],
 [("temporary constant path, library handles", R+"ExecutionSession.cpp:loadModel")],
 None, ["constant path and constants seen by each library's constructor", "environment", "open handles", "results"])

add("P25", "Operations on constants give the defined values, whatever threads compute them",
 "Every operation the compiler performs on constant data - element-wise functions, binary and ternary combination with broadcasting, casts, transposition, reshaping, expansion, splitting, concatenation, slicing, padding, gathering, scattering, reduction, matrix product, clipping, ranges, non-zero indices - yields a constant of the defined type and shape with exactly the defined elements, for any chain of such operations over any element type, for permanent and disposable constants and splats alike, through every way of reading it; the result depends neither on the number of worker threads (none included), on workers that stall or never start, nor on other threads working with the same constants.",
 ["schedules", "histories", "configurations", "inputs"],
 "All chains of operations over all types and shapes, and all schedules and numbers of the worker threads that share one operation.",
 "Large constants are split over the context's workers and small ones are not, and a constant's views (strides, delayed transformations, splats) compose without bound; tests sample single operations, sequentially.",
 ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp", "src/Dialect/ONNX/ElementsAttr/Strides.cpp"],
 [("operations", "ElementsAttrBuilder.cpp"), ("parallel element-wise transformation", "ElementsAttrBuilder.hpp:functionTransformer"), ("parallel reduction", "ElementsAttrBuilder.cpp:reduce"), ("reading", "DisposableElementsAttr.cpp")],
 None, ["type and elements of every result, through every way of reading"])

add("P26", "The compiler driver reports success only for a complete, correct output",
 "The compiler driver reports success only when the requested output exists, is complete and derives from this input, with this compilation's options and this model's own tag, in the first compilation of a process or a later one. Anything else - an input that does not load, a tool of the chain that cannot start, fails or is killed, a full disk, files that cannot be written, read or removed - ends in an error code for the failed step, returned to the caller: the driver neither ends its caller's process nor crashes. However it ends, its intermediate files are removed unless they were asked for, a file it writes itself is complete or absent, the caller's other files and working directory are as before, and no child process is left.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "All command lines and API histories, every point at which a tool of the chain can die, and every failure of a disk or process operation.",
 "Failures of the tools and the disk are not provoked by tests, and one process compiles several models.",
 ["src/onnx-mlir.cpp", "src/Compiler/CompilerUtils.cpp", "src/Compiler/Command.cpp", "src/Compiler/CompilerOptions.cpp"],
 [("tool chain", "src/Compiler/CompilerUtils.cpp:compileModule"), ("input", "src/Compiler/CompilerUtils.cpp:processInputFile"), ("program", "src/onnx-mlir.cpp:main"), ("starting a tool", "src/Compiler/Command.cpp:exec")],
 None, ["error code", "files in the input, output and working directories", "contents of the output: input text, tag and options", "arguments each tool received", "child processes", "working directory"])

add("P27", "An imported constant has exactly the model's values, or the import stops",
 "Importing a constant of a model - stored in the model file as raw or typed data, or as a slice of an external file at any offset - yields its element type, its shape and exactly its elements, and they stay so when the model in memory and its files are gone, whatever other constants or models the process imports. A constant that cannot be imported so - its file missing, too short, unopenable, unreadable or not a file, its location absolute, leading out of the model's directory by '..' or through links, or empty, its offset or length not a number, its data not the amount its shape needs, its type or dimensions invalid - stops the import with a message: compilation never continues with other values, no memory outside the data is read, and no file outside the model's directory is opened. Interrupted calls and short reads do not matter.",
 ["inputs", "fault_sequences", "histories"],
 "All tensors, external files, directory layouts and sequences of imports, and every failure of a file operation.",
 "Tests import a few well-formed tensors; damaged files, links and failing system calls are never exercised.",
 ["src/Builder/FrontendDialectHelper.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
 [("import", "src/Builder/FrontendDialectHelper.cpp:onnxTensorProtoToElmAttr"), ("external files", "src/Builder/FrontendDialectHelper.cpp:readExternalData_LE"), ("typed data", "src/Builder/FrontendDialectHelper.cpp:createElmAttrFromProtoData")],
 None, ["element type", "shape", "elements as bytes, numbers, permanent constant and one by one", "paths opened", "message on the error stream", "descriptors"])

add("P28", "Configuration files are used whole or not at all, and saved placements reload",
 "Loading a configuration file either makes exactly its content available - compile options in order, operation rules, unknown entries kept - or is reported and leaves the configuration as it was; a second file is refused. Storing reports success only for a file that holds the whole configuration; a full disk, a failed write or close is reported, and a pass or compilation that could not save its configuration fails. Rules place operations as documented: the first rule whose node type, name and tensor constraints (indices from either end, ranks, element types, comparison and modulo constraints on dimensions of any size) all hold decides device and quantisation, whatever the order of the operations; a malformed rule applies to nothing. A placement saved by a pass or a compilation and loaded again gives every operation the device and quantisation it had, when type, name and tensors tell it apart, even if it is saved over the file it was loaded from. No content of a configuration file and no failing file operation crashes the compiler.",
 ["histories", "fault_sequences", "inputs"],
 "All configuration files, sets of operations, sequences of loads, stores, passes and compilations, and every failure of a file operation.",
 "Tests load and save a few well-formed files; malformed rules, unusual names and tensors, repeated loads, and failing system calls are never exercised.",
 ["src/Compiler/JsonConfigObject.cpp", "src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp", "src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp", "src/Accelerators/NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp", "src/Accelerators/NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp", "src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp", "src/Compiler/CompilerOptions.cpp", "docs/JsonConfigFile-NNPA.md"],
 [("load and store", "src/Compiler/JsonConfigObject.cpp:loadFromFile"), ("rules", "src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp:applyConfigToOps"), ("saving", "src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp:writeOpsConfig"), ("the file of a compilation", "src/Compiler/CompilerOptions.cpp:loadCompileOptionsFromConfig")],
 None, ["result of load and store", "content of the file", "compile options", "device and quantize attributes", "message on the error stream", "result of the pass and of the compilation"])

add("P29", "Sort, top-k, unique, resize and lookup give the results ONNX defines",
 "The runtime operations that compiled models call give the result ONNX defines for every input, whatever unwritten memory holds and however small the calling thread's stack: sorting is stable; top-k keeps the first of equal elements, in order if asked to; unique values are in ascending order (slices compared in row-major order) or in order of appearance, with first positions, counts and inverse right, and also if the model uses only some of these outputs; linear and cubic resizing, by scale or by size, interpolate between half-pixel neighbours with clamped edges for any rank. For every set of distinct keys the compiler finds a lookup table, in which the runtime finds each key's own entry. Inputs stay unchanged, and nothing outside the outputs is written.",
 ["inputs", "histories", "environment"],
 "All shapes up to rank six, element types, values with ties and extremes, options, sets of outputs, dictionaries, and sequences of calls.",
 "Tests run a few small tensors with few ties; wrong tie-breaking, lost rows and overruns show only for particular values, shapes, stacks and memory contents.",
 ["src/Runtime/OMSort.c", "src/Runtime/OMTopK.c", "src/Runtime/OMUnique.c", "src/Runtime/OMResize.c", "src/Runtime/OMIndexLookup.c", "src/Conversion/ONNXToKrnl/PerfectHash.cpp"],
 [("sorting", "src/Runtime/OMSort.c:omTensorSort"), ("top-k", "src/Runtime/OMTopK.c:omTensorTopK"), ("unique", "src/Runtime/OMUnique.c:omTensorUnique"), ("resizing", "src/Runtime/OMResize.c:interpolate_nd_OMTensor"), ("lookup", "src/Runtime/OMIndexLookup.c:find_index_str"), ("lookup table", "src/Conversion/ONNXToKrnl/PerfectHash.cpp:createPerfectHash")],
 None, ["order", "unique values, positions, inverse and counts", "interpolated values", "entry of each key", "inputs", "memory outside the outputs"])

add("P30", "Java threads can use a model through the bridge at the same time",
 "When several Java threads run inference or query a model through the Java bridge at the same time, each call gives what it would give alone: it passes exactly its own tensors to the model, returns exactly that run's outputs (or throws its own failure), uses only its own thread's Java environment and references, gives back what it borrowed, and once all calls have ended every native tensor, list and buffer they made has been released exactly once.",
 ["schedules", "fault_sequences", "inputs"],
 "All interleavings of calls by two or three threads, with any call into the Java environment or the model failing in any of them.",
 "A single test thread never overlaps two calls; in a real virtual machine an overlap inside the bridge lasts microseconds.",
 [R+"jni/jniwrapper.c"],
 [("per-call table of classes and methods", R+"jni/jniwrapper.c:Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni"), ("conversion to native", R+"jni/jniwrapper.c:omtl_java_to_native"), ("conversion to Java", R+"jni/jniwrapper.c:omtl_native_to_java")],
 None, ["calls received by the simulated Java environments", "allocation ledger at the end of the run"])

add("P31", "The Python client runs only the library its own compilation produced",
 "Opening a Python session on a model file compiles that file, as it is now, with exactly the requested compiler (local, in an image or mounted into one), options, tag and output, also when paths contain spaces or quotes or options are separated by several spaces. A session is opened only if that compilation succeeded, and then runs the library it produced; if the compiler fails, is killed or cannot be started, or the container engine, image or runtime fails, opening raises or exits with a failure, and a library left by an earlier compilation is not used in its place. A run passes the inputs in the order of the model's signature, or fails without running the model if some are missing; the model finds its own constants whatever other sessions exist; and temporary directories live exactly as long as their sessions.",
 ["fault_sequences", "histories", "configurations"],
 "All histories of models, options, compilers, outputs and sessions with any external step failing.",
 "Needs container engines and compilers that fail on demand; a stale library shows only after a particular history.",
 ["src/Runtime/python/onnxmlirdocker.py"],
 [("arguments", "src/Runtime/python/onnxmlirdocker.py:handleParameters"), ("compilation", "src/Runtime/python/onnxmlirdocker.py:Compile"), ("opening", "src/Runtime/python/onnxmlirdocker.py:getSession"), ("running", "src/Runtime/python/onnxmlirdocker.py:run")],
 None, ["arguments received by the simulated compilers and engines", "library, inputs and constants used by the simulated runtime", "temporary directories"])

# ---- pure or out of reach of the technique: listed, not claimed -----------
add("P50", "Compiled models compute what the ONNX standard says",
 "A model compiled at any optimisation level and for any supported target produces, for every valid input, outputs equal to those defined by the ONNX operator specification within floating-point tolerance.",
 ["programs", "inputs", "configurations"], "All ONNX models, inputs and compiler options.",
 "Tests sample a few shapes and values per operator.",
 ["src/Conversion", "src/Dialect/ONNX", "src/Builder"], [("lowering", "src/Conversion/ONNXToKrnl")])
add("P51", "Every compiler transformation preserves the meaning of the model",
 "Each graph rewrite, decomposition, constant propagation, fusion and layout change keeps the outputs of the model unchanged for all inputs.",
 ["programs", "inputs"], "All models to which a rewrite applies.",
 "Rewrites interact; tests check the textual result of single examples.",
 ["src/Dialect/ONNX/Transforms", "src/Transform"], [("rewrites", "src/Dialect/ONNX/Transforms")])
add("P52", "Shape inference is sound for every model",
 "Every shape the compiler infers is the shape the operator produces at run time for every input consistent with it.",
 ["programs", "inputs"], "All models and input shapes.",
 "Shapes are combinatorial.", ["src/Dialect/ONNX/ONNXOps"], [("shape helpers", "src/Dialect/ONNX/ONNXOps")])
add("P53", "Small floating-point formats convert exactly as specified",
 "Conversions between 32-bit floats and the 16-bit and 8-bit formats round to nearest even and map special values as the formats define, for every bit pattern.",
 ["inputs"], "All bit patterns.", "Exhaustive input coverage rather than a sample.",
 ["src/Support/SmallFPConversion.c", "src/Support/SmallFP.hpp"], [("conversion", "src/Support/SmallFPConversion.c")])
add("P55", "Command-line and flag parsing is faithful",
 "Flag strings with any quoting and escaping are split into exactly the intended arguments, and the predicted output file, target and tag are those the compiler will use.",
 ["inputs"], "All flag strings.", "Unbounded input space.",
 ["src/Compiler/CommandUtils.cpp"], [("parser", "src/Compiler/CommandUtils.cpp:parseFlags")])
add("P57", "Importing a model keeps every node, constant and attribute",
 "Importing an ONNX file yields a program with the same graph, constants (embedded or external) and attributes, or reports an error for an invalid file.",
 ["inputs"], "All ONNX files.", "Unbounded input space.",
 ["src/Builder/FrontendDialectTransformer.cpp", "src/Builder/ImportONNXUtils.cpp"], [("importer", "src/Builder")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
