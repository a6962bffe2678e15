// P19: Python sessions over a simulated model library.
// Real: PyExecutionSession.cpp (the PyRuntimeC module), PyRuntime.py,
// ExecutionSession.cpp, OMTensor*, CPython, NumPy and pybind11.
// Stub: dlopen/dlsym/dlclose and the model's code.
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "OnnxMlirRuntime.h"
#include "simkit.h"
#include <cstring>
#include <errno.h>
#include <map>
#include <set>
#include <unistd.h>
namespace py = pybind11;
using sim::ev; using sim::fail;
extern "C" PyObject *PyInit_PyRuntimeC();
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);

namespace {
typedef std::vector<int64_t> Dims;
const int MASK = (1 << sim::TAG_SUT) | (1 << sim::TAG_MODEL);
const char *npName[] = {"", "float32", "uint8", "int8", "uint16", "int16", "int32", "int64", "object", "bool", "float16", "float64", "uint32", "uint64", "complex64", "complex128"};
int sizeOf(int t) { static const int sz[] = {1, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1, 1}; return sz[t]; }
std::string hexKey(const std::string &s) { return std::to_string(sim::hashBytes(s.data(), s.size())); }
int64_t prod(const Dims &d) { int64_t n = 1; for (auto x : d) n *= x; return n; }
struct Val { int dtype; Dims shape; std::string bytes; std::vector<std::string> strs; }; // elements in row-major order
std::string describe(const Val &v) { std::string s = std::string(v.dtype < 16 ? npName[v.dtype] : "type") + std::to_string(v.dtype) + " ["; for (auto d : v.shape) s += std::to_string(d) + " "; return s + "]"; }
Dims genShape() {
  Dims d; int r = (int)sim::choose(4); int64_t n = 1;
  for (int i = 0; i < r; i++) { int64_t x = sim::chance(1, 12) ? 0 : sim::range(1, sim::chance(1, 8) ? 30 : 4); if (n * x > 2000) x = 1; d.push_back(x); n *= x; }
  return d;
}
Val genVal(bool out) {
  Val v; v.dtype = out && sim::chance(1, 14) ? (sim::choose(2) ? 16 + (int)sim::choose(6) : 0) : sim::chance(1, 6) ? 8 : 1 + (int)sim::choose(15);
  v.shape = genShape(); int64_t n = prod(v.shape); uint64_t x = sim::choose(1000) * 0x9e3779b97f4a7c15ull + 7;
  auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
  if (v.dtype == 8) for (int64_t i = 0; i < n; i++) v.strs.push_back(std::string(rnd() % 9, 'a' + rnd() % 26) + (rnd() % 5 ? "" : "\xc3\xa9"));
  else { v.bytes.resize(n * sizeOf(v.dtype)); for (auto &c : v.bytes) c = v.dtype == 9 ? rnd() % 2 : (char)(rnd() >> 24); }
  return v;
}
// ----------------------------------------------------------------- library
const char *LIBP = "/sim/model.so";
int libRefs; bool libOpen;
std::vector<char *> statics; // data of the library, gone when it is closed
struct Buf { void *alloc; size_t n; };
std::vector<Buf> bufs;        // every output buffer the model handed over
std::vector<Val> wantIn, wantOut; int modelRuns; bool modelFails, nullOutput; std::string modelErr;
struct Plan { int how; int share; }; // how: 0 owned, 1 owned with offset, 2 constant; share: index of the output whose buffer it is, or -1
std::vector<Plan> plan;

std::string elements(OMTensor *t, const Val &w, std::vector<std::string> &strs) { // as the model reads them, through data pointer and strides
  int r = (int)w.shape.size(); const int64_t *st = omTensorGetStrides(t); const char *p = (const char *)omTensorGetDataPtr(t); int es = sizeOf(w.dtype);
  int64_t n = prod(w.shape); std::string out; Dims ix(r, 0); int64_t lo = 0, hi = 0;
  for (int i = 0; i < r; i++) if (w.shape[i] > 0) (st[i] < 0 ? lo : hi) += st[i] * (w.shape[i] - 1);
  if (n && (lo < 0 || hi >= n)) fail("input-strides", "strides of the input reach outside its %ld elements", (long)n);
  for (int64_t k = 0; k < n; k++) {
    int64_t off = 0; for (int i = 0; i < r; i++) off += ix[i] * st[i];
    if (w.dtype == 8) strs.push_back(((char **)p)[off]); else out.append(p + off * es, es);
    for (int i = r - 1; i >= 0 && ++ix[i] == w.shape[i]; i--) ix[i] = 0;
  }
  return out;
}
OMTensorList *modelRun(OMTensorList *in) {
  sim::Env e; modelRuns++;
  if (!libOpen) fail("use-after-close", "the model ran after its library was closed");
  int64_t n = omTensorListGetSize(in);
  if (n != (int64_t)wantIn.size()) fail("input-count", "the model got %ld inputs instead of %zu", (long)n, wantIn.size());
  for (int64_t i = 0; i < n; i++) {
    OMTensor *t = omTensorListGetOmtByIndex(in, i); Val &w = wantIn[i];
    if (!t) fail("input-null", "input %ld is null", (long)i);
    if (omTensorGetDataType(t) != w.dtype) fail("input-type", "input %ld has type %d instead of %d", (long)i, (int)omTensorGetDataType(t), w.dtype);
    if (omTensorGetRank(t) != (int64_t)w.shape.size()) fail("input-shape", "input %ld has rank %ld instead of %zu", (long)i, (long)omTensorGetRank(t), w.shape.size());
    for (size_t d = 0; d < w.shape.size(); d++) if (omTensorGetShape(t)[d] != w.shape[d]) fail("input-shape", "input %ld (%s) dimension %zu is %ld", (long)i, describe(w).c_str(), d, (long)omTensorGetShape(t)[d]);
    std::vector<std::string> s; std::string b = elements(t, w, s);
    if (b != w.bytes || s != w.strs) fail("input-data", "the model reads other elements in input %ld (%s) than the array holds", (long)i, describe(w).c_str());
  }
  if (modelFails) { ev("  model fails"); errno = EPERM; return nullptr; }
  sim::TagScope ts(sim::TAG_MODEL); std::vector<OMTensor *> outs; std::vector<std::pair<char *, char *>> at;
  for (size_t i = 0; i < wantOut.size(); i++) {
    Val &w = wantOut[i]; Plan &p = plan[i]; char *alloc, *data; bool own = p.how != 2; int64_t dummy = 0;
    if (nullOutput && i + 1 == wantOut.size()) { outs.push_back(nullptr); at.push_back({nullptr, nullptr}); continue; }
    if (p.share >= 0 && at[p.share].first) { alloc = at[p.share].first; data = at[p.share].second; own = plan[p.share].how != 2; p.how = plan[p.share].how; }
    else {
      std::string img; std::vector<size_t> offs; size_t nb = w.bytes.size();
      if (w.dtype == 8) { nb = 8 * w.strs.size(); for (auto &s : w.strs) { offs.push_back(nb); nb += s.size() + 1; } }
      size_t off = p.how == 1 ? 64 : 0, total = nb + off ? nb + off : 1;
      alloc = (char *)malloc(total); data = alloc + off;
      sim::TagScope hs(sim::TAG_HARNESS); if (own) bufs.push_back({alloc, total}); else { sim::ledgerForget(alloc); statics.push_back(alloc); }
      if (w.dtype == 8) for (size_t k = 0; k < offs.size(); k++) { ((char **)data)[k] = data + offs[k]; strcpy(data + offs[k], w.strs[k].c_str()); }
      else memcpy(data, w.bytes.data(), nb);
    }
    OMTensor *t = omTensorCreate(nullptr, w.shape.empty() ? &dummy : w.shape.data(), w.shape.size(), (OM_DATA_TYPE)w.dtype);
    omTensorSetDataPtr(t, own, alloc, data); outs.push_back(t); at.push_back({alloc, data});
  }
  return omTensorListCreate(outs.data(), outs.size());
}
const char *SIG_IN = "[ { \"type\" : \"f32\" , \"dims\" : [2 , 3] , \"name\" : \"x\" } , { \"type\" : \"i64\" , \"dims\" : [4] , \"name\" : \"y\" } ]";
const char **fnQuery(int64_t *n) { static const char *eps[] = {"run_main_graph", nullptr}; if (n) *n = 1; return eps; }
const char *fnIn(const char *) { return SIG_IN; }
const char *fnOut(const char *) { return "[]"; }
const char *fnInfo() { return "{}"; }
void closeLib() { for (auto p : statics) { sim::Env e; free(p); } statics.clear(); libOpen = false; }
} // namespace
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *__wrap_dlopen(const char *p, int f) { if (!sim::active() || strcmp(p, LIBP)) return __real_dlopen(p, f); libRefs++; libOpen = true; return &libRefs; }
void *__wrap_dlsym(void *h, const char *n) {
  if (h != &libRefs) return __real_dlsym(h, n);
  sim::Env e; std::string nm = n; if (nm.size() > 6 && nm.compare(nm.size() - 6, 6, "_model") == 0) nm.resize(nm.size() - 6); n = nm.c_str();
  if (!strcmp(n, "run_main_graph")) return (void *)modelRun;
  if (!strcmp(n, "omQueryEntryPoints")) return (void *)fnQuery;
  if (!strcmp(n, "omInputSignature")) return (void *)fnIn;
  if (!strcmp(n, "omOutputSignature")) return (void *)fnOut;
  if (!strcmp(n, "omCompilationInfo")) return (void *)fnInfo;
  return nullptr;
}
int __wrap_dlclose(void *h) { if (h != &libRefs) return __real_dlclose(h); if (!--libRefs) closeLib(); return 0; }
// failing calls into Python
PyObject *__real_PyCapsule_New(void *, const char *, PyCapsule_Destructor);
PyObject *__wrap_PyCapsule_New(void *p, const char *n, PyCapsule_Destructor d) { if (sim::active() && modelRuns && sim::fault("python-fails")) { ev("  capsule fails"); return PyErr_NoMemory(); } return __real_PyCapsule_New(p, n, d); }
PyObject *__real_PyUnicode_FromString(const char *);
PyObject *__wrap_PyUnicode_FromString(const char *s) { if (sim::active() && modelRuns && sim::fault("python-fails")) { ev("  string fails"); return PyErr_NoMemory(); } return __real_PyUnicode_FromString(s); }
}
namespace {
PyObject *(*realNew)(PyTypeObject *, PyObject *, int, Py_intptr_t const *, Py_intptr_t const *, void *, int, PyObject *);
PyObject *newArray(PyTypeObject *a, PyObject *d, int nd, Py_intptr_t const *dims, Py_intptr_t const *st, void *data, int fl, PyObject *o) {
  if (sim::active() && sim::fault("python-fails")) { ev("  array fails"); Py_XDECREF(d); return PyErr_NoMemory(); }
  return realNew(a, d, nd, dims, st, data, fl, o);
}
py::object *np, *cls, *asStrided;
// ---------------------------------------------------------------- harness
struct Held { py::object a; Val v; };
std::vector<Held> held;
size_t base;
Val readArray(py::handle a, const char *what) { // elements in row-major order
  Val v; std::string dn = py::cast<std::string>(py::str(a.attr("dtype")));
  v.dtype = 0; for (int i = 1; i < 16; i++) if (dn == npName[i]) v.dtype = i;
  for (auto d : a.attr("shape")) v.shape.push_back(py::cast<int64_t>(d));
  py::object f = a.attr("ravel")();
  if (v.dtype == 8) { for (auto s : f) { if (!PyUnicode_Check(s.ptr())) fail("output-data", "%s holds an element that is not a string", what); v.strs.push_back(py::cast<std::string>(s)); } }
  else v.bytes = py::cast<std::string>(f.attr("tobytes")());
  return v;
}
void same(const Val &g, const Val &w, const char *what, size_t i) {
  if (g.dtype != w.dtype) fail("output-type", "%s %zu has type %s instead of %s", what, i, npName[g.dtype], describe(w).c_str());
  if (g.shape != w.shape) fail("output-shape", "%s %zu has shape %s instead of %s", what, i, describe(g).c_str(), describe(w).c_str());
  if (g.bytes != w.bytes || g.strs != w.strs) fail("output-data", "%s %zu (%s) does not hold what it should", what, i, describe(w).c_str());
}
void checkHeld(const char *when) {
  size_t liveBufs = 0;
  for (auto &b : bufs) {
    bool live = sim::ledgerIsLive(b.alloc); bool used = false;
    for (auto &h : held) { char *p = (char *)py::cast<uintptr_t>(h.a.attr("ctypes").attr("data")); if (p >= (char *)b.alloc && p <= (char *)b.alloc + b.n) used = true; }
    if (used && !live) fail("output-released", "%s: a buffer was released although an array still refers to it", when);
    if (live && !used) fail("leak", "%s: an output buffer of %zu bytes was not released although no array refers to it", when, b.n);
    liveBufs += live;
  }
  for (size_t i = 0; i < held.size(); i++) same(readArray(held[i].a, "array"), held[i].v, when, i);
  if (sim::ledgerLive(MASK) != base + liveBufs) fail("leak", "%s: %zu blocks are left: %s", when, sim::ledgerLive(MASK) - base - liveBufs, sim::ledgerDescribe(MASK, sim::ledgerMark() > 400 ? sim::ledgerMark() - 400 : 0).c_str());
  // forget what is gone: its address may be used again
  for (size_t i = 0; i < bufs.size();) if (!sim::ledgerIsLive(bufs[i].alloc)) bufs.erase(bufs.begin() + i); else i++;
}
py::object makeArray(const Val &v, bool &readonly, bool &strided) {
  py::object a;
  py::list sh; for (auto d : v.shape) sh.append(d);
  if (v.dtype == 8) { a = np->attr("empty")(py::tuple(sh), "object"); py::object f = a.attr("reshape")(-1); for (size_t i = 0; i < v.strs.size(); i++) f[py::int_(i)] = py::str(v.strs[i]); }
  else a = np->attr("frombuffer")(py::bytes(v.bytes), npName[v.dtype]).attr("reshape")(py::tuple(sh)).attr("copy")();
  if (strided && v.shape.size() >= 1) {
    if (v.shape.size() > 1 && sim::choose(2)) a = a.attr("copy")(py::arg("order") = "F");
    else { // every second element of a larger array
      py::list big(v.shape.size()); for (size_t i = 0; i < v.shape.size(); i++) big[i] = i ? v.shape[i] : v.shape[i] * 2;
      py::object b = np->attr("zeros")(py::tuple(big), npName[v.dtype]); py::object view = b[py::slice(py::none(), py::none(), py::int_(2))]; np->attr("copyto")(view, a); a = view;
    }
  } else strided = false;
  if (readonly) a.attr("flags").attr("writeable") = false;
  return a;
}
template <class... A> py::object callPy(py::object &o, const char *name, A... args) {
  py::object f = o.attr(name); py::tuple t = py::make_tuple(args...); PyObject *r;
  { sim::Sut s; r = PyObject_CallObject(f.ptr(), t.ptr()); }
  if (!r) throw py::error_already_set();
  return py::reinterpret_steal<py::object>(r);
}
void opRun(py::object &session) {
  wantIn.clear(); wantOut.clear(); plan.clear(); modelRuns = 0;
  int ni = (int)sim::choose(4), no = sim::chance(1, 12) ? 0 : 1 + (int)sim::choose(3);
  modelFails = sim::chance(1, 8); nullOutput = no && sim::chance(1, 24);
  int bad = ni && sim::chance(1, 8) ? 1 + (int)sim::choose(4) : 0; int badAt = bad ? (int)sim::choose(ni) : 0;
  bool dbg = sim::chance(1, 3), sigh = dbg && sim::chance(1, 3), copy = dbg && sim::chance(1, 2);
  sim::op("run %d inputs %d outputs%s%s bad %d%s%s%s", ni, no, modelFails ? " model fails" : "", nullOutput ? " null output" : "", bad, dbg ? " debug" : "", sigh ? " handler" : "", copy ? " copy" : "");
  py::list ins; std::vector<py::object> arr; std::vector<bool> ro;
  for (int i = 0; i < ni; i++) {
    Val v = genVal(false); bool readonly = sim::chance(1, 4), strided = sim::chance(1, 4);
    if (bad && i == badAt) {
      v.dtype = 1; v.strs.clear(); v.bytes.assign(prod(v.shape) * 4, 1);
      py::object a = makeArray(v, readonly, strided);
      if (bad == 1) { a = a.attr("astype")(">f4"); if (readonly) a.attr("flags").attr("writeable") = false; }
      if (bad == 2) a = a.attr("astype")("U4");
      if (bad == 3) { a = np->attr("empty")(3, "object"); if (readonly) a.attr("flags").attr("writeable") = false; } // None, None, None
      if (bad == 4) a = a.attr("astype")("datetime64[s]");
      arr.push_back(a); wantIn.push_back(v); ro.push_back(readonly); ins.append(a); ev("  in bad %d", bad); continue;
    }
    py::object a = makeArray(v, readonly, strided); ev("  in %s%s%s", describe(v).c_str(), readonly ? " read-only" : "", strided ? " strided" : "");
    arr.push_back(a); wantIn.push_back(v); ro.push_back(readonly); ins.append(a);
  }
  bool unsup = false;
  for (int i = 0; i < no; i++) {
    Plan p{(int)sim::choose(3), -1}; Val v = genVal(true);
    if (i && sim::chance(1, 4)) { int s = (int)sim::choose(i); if (plan[s].share < 0) { p.share = s; p.how = plan[s].how; v = wantOut[s]; if (!v.shape.empty() && sim::choose(2)) v.shape = {prod(v.shape)}; } }
    if (v.dtype == 0 || v.dtype > 15) unsup = true;
    plan.push_back(p); wantOut.push_back(v); ev("  out %s how %d share %d", describe(v).c_str(), p.how, p.share);
  }
  std::vector<py::ssize_t> refs; for (auto &a : arr) refs.push_back(a.ref_count());
  unsigned f0 = sim::faultsFired(); std::string exc; py::object res; bool threw = false;
  try { res = dbg ? callPy(session, "run_debug", ins, sigh, copy) : callPy(session, "run", ins); }
  catch (py::error_already_set &e) { sim::Env x; threw = true; exc = py::cast<std::string>(e.type().attr("__name__")); }
  if (PyErr_Occurred()) fail("exception-left-behind", "run returned with a Python error set");
  bool faulted = sim::faultsFired() != f0, expect = bad || modelFails || nullOutput || unsup;
  ev("  -> %s%s", threw ? "exception " : "arrays", exc.c_str());
  if (!threw && expect) fail("failure-not-reported", "run returned although %s", bad ? "an input is unsupported" : modelFails ? "the model failed" : unsup ? "an output has an unsupported type" : "an output is missing");
  if (threw && !expect && !faulted) fail("refused", "run raised %s although nothing failed", exc.c_str());
  if (bad && modelRuns) fail("model-run-on-invalid", "the model was run although an input is unsupported");
  if (modelRuns > 1) fail("model-run-twice", "the model ran %d times for one call", modelRuns);
  if (bad) sim::probe("unsupported input refused"); if (modelFails && modelRuns) sim::probe("model failed"); if (unsup && modelRuns) sim::probe("unsupported output refused");
  for (int i = 0; i < ni; i++) {
    if (bad && i == badAt) continue;
    same(readArray(arr[i], "input"), wantIn[i], "input", i);
    if (py::cast<bool>(arr[i].attr("flags").attr("writeable")) == ro[i]) fail("input-changed", "input %d became %swritable", i, ro[i] ? "" : "not ");
  }
  if (!threw) {
    if (modelRuns != 1) fail("result-without-run", "run returned a result without running the model");
    if ((size_t)py::len(res) != wantOut.size()) fail("output-count", "run returned %zu arrays instead of %zu", (size_t)py::len(res), wantOut.size());
    for (int i = 0; i < no; i++) { py::object a = res[py::int_(i)]; same(readArray(a, "output"), wantOut[i], "output", i); held.push_back({a, wantOut[i]}); }
    sim::probe("outputs compared");
  }
  res = py::object();
  checkHeld("after run");
  for (int i = 0; i < ni; i++) if (arr[i].ref_count() != refs[i]) fail("reference-leak", "input %d has %ld references instead of %ld after the call", i, (long)arr[i].ref_count(), (long)refs[i]);
  sim::state("run " + std::to_string(ni) + " " + std::to_string(no) + (threw ? " " + exc : "") + " " + std::to_string(bad) + (dbg ? "d" : "") + (copy ? "c" : "") + (modelFails ? "m" : "") + (faulted ? "f" : "") + std::to_string(held.size()));
}
void opFill(py::object &session) {
  int seed = (int)sim::choose(3); sim::op("fill_input_debug seed %d", seed); modelRuns = 0; unsigned f0 = sim::faultsFired(); bool threw = false; py::object res;
  try { res = callPy(session, "fill_input_debug", "", "", "", "", seed, false); }
  catch (py::error_already_set &) { threw = true; }
  if (threw && sim::faultsFired() == f0) fail("refused", "fill_input_debug raised although nothing failed");
  if (!threw) {
    if (py::len(res) != 2) fail("output-count", "fill_input_debug returned %zu arrays instead of 2", (size_t)py::len(res));
    Val a = readArray(res[py::int_(0)], "input"), b = readArray(res[py::int_(1)], "input");
    if (a.dtype != 1 || a.shape != Dims{2, 3} || b.dtype != 7 || b.shape != Dims{4}) fail("output-shape", "fill_input_debug returned arrays of another type or shape");
  }
  res = py::object(); ev("  -> %d", threw); checkHeld("after fill_input_debug");
}
void drop(size_t i) { ev("drop %zu of %zu", i, held.size()); held.erase(held.begin() + i); checkHeld("after an array was dropped"); }
void run() {
  sim::faultKinds({"malloc-fails", "new-fails", "python-fails"});
  sim::ledgerStart();
  {
    py::object session = (*cls)(LIBP, "", true);
    base = sim::ledgerLive(MASK); sim::allocFaults(true, true); sim::armFaults(true);
    int n = 1 + (int)sim::choose(5);
    for (int i = 0; i < n; i++) {
      int k = (int)sim::choose(6);
      if (k < 4) opRun(session); else if (k == 4 && held.size()) drop(sim::choose(held.size())); else opFill(session);
    }
    sim::armFaults(false); size_t l0 = sim::ledgerLive(MASK);
    session = py::object(); base -= l0 - sim::ledgerLive(MASK);
  }
  if (libRefs) fail("library-left-open", "the model library is still open after its session is gone");
  sim::op("session closed"); checkHeld("after the session was closed");
  while (held.size()) drop(sim::choose(held.size()));
}
void warm() {
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1); setenv("PYTHONMALLOC", "pymalloc", 1);
  PyImport_AppendInittab("PyRuntimeC", PyInit_PyRuntimeC);
  Py_InitializeEx(0);
  py::list path = py::module_::import("sys").attr("path");
  path.insert(0, sim::arg("pyruntime", PYRUNTIME_DIR)); path.append(NUMPY_DIR);
  np = new py::object(py::module_::import("numpy")); py::module_::import("gc").attr("disable")();
  cls = new py::object(py::module_::import("PyRuntime").attr("OMExecutionSession"));
  auto &api = py::detail::npy_api::get(); realNew = api.PyArray_NewFromDescr_; api.PyArray_NewFromDescr_ = newArray;
  { bool f = false; Val v{1, {2}, std::string(8, 0), {}}; py::object a = makeArray(v, f, f); readArray(a, ""); }
}
} // namespace
int main(int argc, char **argv) { sim::Options o; o.cpuLimit = 30; return sim::simMain(argc, argv, o, warm, run); }
