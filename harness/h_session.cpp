// P01/P02/P03: inference sessions over simulated model libraries.
// Real: ExecutionSession.cpp, OMTensor.cpp, OMTensorList.cpp and helpers.
// Stub: dlopen/dlsym/dlclose (a simulated dynamic loader with reference
// counts and library constructors) and the model code.
#include "ExecutionSession.hpp"
#include "simkit.h"
#include <csetjmp>
#include <cstring>
#include <errno.h>
#include <map>
#include <memory>
#include <signal.h>
#include <unistd.h>
using namespace onnx_mlir;
using sim::fail;

extern char **environ;
// ------------------------------------------------------------ fake loader
namespace {
enum Sym { S_QUERY, S_IN, S_OUT, S_INFO, S_PRINT, S_RUN, S_RUN2, NSYM };
struct Lib {
  std::string path, base, dir; bool hasDir;
  bool exists; bool sym[NSYM]; bool tagged; int refs;
  int seenEnv; std::string envSeen; // last constructor run
  int prints, runs;
};
const int NLIB = 4;
Lib L[NLIB];
struct Handle { int lib; bool open; };
std::vector<Handle *> handles;
const char *names[NSYM] = {"omQueryEntryPoints", "omInputSignature", "omOutputSignature", "omCompilationInfo", "omInstrumentPrint", "run_main_graph", "run_other"};
bool missedRequired; // a lookup of a required symbol or the open failed in this operation
OMTensorList *modelRun(int lib, OMTensorList *in);

void alive(int i, const char *what) { if (L[i].refs <= 0) fail("use-after-close", "%s of model %d called after its library was closed", what, i); }
template <int I> struct M {
  static const char *inSig; static const char *outSig;
  static const char **query(int64_t *n) { sim::Env e; alive(I, "omQueryEntryPoints"); static const char *eps[] = {"run_main_graph", "run_other", nullptr}; if (n) *n = 2; return eps; }
  static const char *in(const char *ep) { sim::Env e; alive(I, "omInputSignature"); static std::string s[2]; bool o = strstr(ep, "other"); s[o] = std::string(o ? "in2#" : "in#") + std::to_string(I); return s[o].c_str(); }
  static const char *out(const char *ep) { sim::Env e; alive(I, "omOutputSignature"); static std::string s[2]; bool o = strstr(ep, "other"); s[o] = std::string(o ? "out2#" : "out#") + std::to_string(I); return s[o].c_str(); }
  static const char *info() { sim::Env e; alive(I, "omCompilationInfo"); static std::string s = "{info " + std::to_string(I) + "}"; return s.c_str(); }
  static void print() { sim::Env e; alive(I, "omInstrumentPrint"); L[I].prints++; if (sim::chance(1, 3)) { static const int ee[] = {ENOTTY, EPERM, ENOSPC, EBADF}; errno = ee[sim::choose(4)]; } }
  static OMTensorList *run(OMTensorList *l) { sim::Env e; alive(I, "run_main_graph"); return modelRun(I, l); }
  static OMTensorList *run2(OMTensorList *l) { sim::Env e; alive(I, "run_other"); return modelRun(I, l); }
  static void *fn(int s) {
    void *t[] = {(void *)query, (void *)in, (void *)out, (void *)info, (void *)print, (void *)run, (void *)run2};
    return t[s];
  }
};
void *libFn(int i, int s) { switch (i) { case 0: return M<0>::fn(s); case 1: return M<1>::fn(s); case 2: return M<2>::fn(s); default: return M<3>::fn(s); } }
std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
} // namespace
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *__wrap_dlopen(const char *path, int flags) {
  if (!sim::active()) return __real_dlopen(path, flags);
  bool f = sim::fault("dlopen-fails");
  sim::Env e; int lib = -1;
  for (int i = 0; i < NLIB; i++) if (path && L[i].path == path) lib = i;
  if (lib < 0 || !L[lib].exists || f) { missedRequired = true; sim::probe("open failed"); sim::ev("  dlopen model %d -> null", lib); return nullptr; }
  if (L[lib].refs++ == 0) { // library constructors
    const char *v = getenv("OM_CONSTANT_PATH");
    L[lib].seenEnv = v ? 2 : 1; L[lib].envSeen = v ? v : "";
  }
  handles.push_back(new Handle{lib, true});
  sim::ev("  dlopen model %d -> handle %zu", lib, handles.size() - 1);
  return handles.back();
}
void *__wrap_dlsym(void *h, const char *name) {
  if (!sim::active()) return __real_dlsym(h, name);
  bool ok = false; int lib = -1;
  for (auto *x : handles) if (x == h && x->open) { ok = true; lib = x->lib; }
  if (!ok) fail("bad-dlsym", "symbol lookup through a handle that is not open");
  bool f = sim::fault("dlsym-fails");
  sim::Env e; std::string n = name;
  for (int s = 0; s < NSYM; s++) {
    std::string want = names[s];
    if (s != S_PRINT && L[lib].tagged) want += "_" + lower(L[lib].base);
    if (n == want && L[lib].sym[s] && !f) return libFn(lib, s);
  }
  if (n.rfind("omCompilationInfo", 0) != 0 && n.rfind("omInstrumentPrint", 0) != 0) missedRequired = true;
  sim::ev("  dlsym %s -> null", name); sim::probe("symbol missing");
  return nullptr;
}
int __wrap_dlclose(void *h) {
  if (!sim::active()) return __real_dlclose(h);
  sim::Env e;
  for (size_t i = 0; i < handles.size(); i++) if (handles[i] == h) {
    if (!handles[i]->open) fail("double-dlclose", "library handle %zu closed twice", i);
    handles[i]->open = false; L[handles[i]->lib].refs--; sim::ev("  dlclose handle %zu", i); return 0;
  }
  fail("bad-dlclose", "a value that is not an open library handle was closed");
}
char *__wrap_dlerror() { return (char *)"simulated loader error"; }
}
namespace {
std::string envSnap() { std::vector<std::string> v; for (char **e = environ; *e; e++) v.push_back(*e); std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += x + "\n"; return s; }
std::string envDiff(const std::string &a, const std::string &b) {
  const char *k = "OM_CONSTANT_PATH="; auto g = [&](const std::string &s) { size_t p = s.find(k); return p == std::string::npos ? std::string("<unset>") : s.substr(p + strlen(k), s.find('\n', p) - p - strlen(k)); };
  return "OM_CONSTANT_PATH was " + g(a) + ", is " + g(b);
}
void makeLibs(bool allowBroken) {
  static const char *paths[NLIB] = {"/models/one/alpha.so", "/models/two/Beta.Net.so", "gamma.so", "rel/dir/delta.so"};
  static const char *bases[NLIB] = {"alpha", "Beta.Net", "gamma", "delta"};
  static const char *dirs[NLIB] = {"/models/one", "/models/two", "", "rel/dir"};
  for (int i = 0; i < NLIB; i++) {
    L[i].path = paths[i]; L[i].base = bases[i]; L[i].dir = dirs[i]; L[i].hasDir = *dirs[i]; L[i].refs = 0; L[i].exists = true; L[i].prints = L[i].runs = 0;
    L[i].tagged = !sim::chance(1, 3);
    for (int s = 0; s < NSYM; s++) L[i].sym[s] = true;
    if (allowBroken && sim::chance(1, 3)) {
      if (sim::chance(1, 4)) L[i].exists = false;
      else L[i].sym[sim::choose(NSYM)] = false;
    }
  }
}
int openHandles() { int n = 0; for (auto *h : handles) n += h->open; return n; }
std::string tagFor(int i) { return L[i].tagged ? (sim::chance(1, 4) ? lower(L[i].base) : "") : (sim::chance(1, 2) ? "NONE" : "none"); }

// ------------------------------------------------------------ P01
struct Live { ExecutionSession *s; int lib; int ep; bool loaded; };
std::vector<Live> live;
std::string userEnv; bool userEnvSet; std::string baseEnv;

void checkWorld(const char *after) {
  std::string now = envSnap();
  if (now != baseEnv) fail("env-changed", "after %s the environment differs: %s", after, envDiff(baseEnv, now).c_str());
  int want = 0; for (auto &l : live) want += l.loaded;
  int got = openHandles();
  if (got != want) fail(got > want ? "handle-leak" : "handle-lost", "after %s %d library handles are open for %d loaded sessions", after, got, want);
}
void checkCtorEnv(int i, bool wasLoaded) {
  if (wasLoaded) return;
  if (userEnvSet && userEnv.empty()) return; // set but empty: either reading of it is acceptable
  if (userEnvSet) { if (L[i].seenEnv != 2 || L[i].envSeen != userEnv) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s instead of the user's %s", i, L[i].seenEnv == 2 ? L[i].envSeen.c_str() : "<unset>", userEnv.c_str()); }
  else if (L[i].hasDir) { if (L[i].seenEnv != 2 || L[i].envSeen != L[i].dir) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s instead of %s", i, L[i].seenEnv == 2 ? L[i].envSeen.c_str() : "<unset>", L[i].dir.c_str()); }
  else if (L[i].seenEnv == 2) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s, none was expected", i, L[i].envSeen.c_str());
}
template <class F> int attempt(F f, std::string *msg = nullptr) { // 0 ok, 1 session error, 2 out of memory
  sim::Sut s;
  try { f(); return 0; }
  catch (const ExecutionSessionException &e) { sim::Env x; if (msg) *msg = e.what(); return 1; }
  catch (const std::bad_alloc &) { return 2; }
  catch (const std::exception &e) { sim::Env x; fail("foreign-exception", "unexpected exception type: %s", e.what()); }
}
void judge(const char *what, int rc, unsigned memBefore) {
  unsigned mem = sim::faultsFiredOf("new-fails") - memBefore;
  if (missedRequired && rc == 0) fail("error-swallowed", "%s succeeded although the library or a required symbol was missing", what);
  if (!missedRequired && !mem && rc != 0) fail("spurious-error", "%s failed although every step succeeded", what);
  if (rc == 2 && !mem) fail("spurious-error", "%s reported out of memory", what);
}
void runP01() {
  sim::Env env; sim::faultKinds({"dlopen-fails", "dlsym-fails", "new-fails"}); sim::allocFaults(false, true);
  sim::TagScope tg(sim::TAG_HARNESS); sim::ledgerStart();
  makeLibs(true);
  unsetenv("OM_CONSTANT_PATH"); userEnvSet = false;
  auto setUser = [&](bool on) { userEnvSet = on; static const char *dirs[] = {"/user/consts", "/user/consts/", "consts", ""}; userEnv = dirs[on ? sim::choose(4) : 0]; if (on) setenv("OM_CONSTANT_PATH", userEnv.c_str(), 1); else unsetenv("OM_CONSTANT_PATH"); baseEnv = envSnap(); };
  setUser(sim::chance(1, 4));
  int n = 2 + sim::choose(12);
  for (int k = 0; k < n; k++) {
    unsigned mem = sim::faultsFiredOf("new-fails");
    missedRequired = false;
    switch (sim::choose(8)) {
    case 0: case 1: { // construct
      int i = sim::choose(NLIB); bool ep = !sim::chance(1, 3); std::string tag = tagFor(i); bool was = L[i].refs > 0;
      sim::op("new session model %d tag '%s' default-entry %d", i, tag.c_str(), ep);
      ExecutionSession *s = nullptr;
      int rc = attempt([&] { s = new ExecutionSession(L[i].path, tag, ep); });
      sim::ev("  -> %d", rc);
      judge("creating a session", rc, mem);
      if (!rc) { live.push_back({s, i, ep ? 1 : 0, true}); checkCtorEnv(i, was); }
      else sim::probe("failed load");
      checkWorld("creating a session");
    } break;
    case 2: { // default constructor
      sim::op("new empty session");
      void *raw = ::operator new(sizeof(ExecutionSession)); memset(raw, 0x5a, sizeof(ExecutionSession));
      ExecutionSession *s = nullptr;
      int rc = attempt([&] { s = new (raw) ExecutionSession; });
      if (rc) ::operator delete(raw); else live.push_back({s, -1, 0, false});
    } break;
    case 3: { // loadModel on an existing object
      if (live.empty()) break;
      Live &l = live[sim::choose(live.size())]; int i = sim::choose(NLIB); bool ep = !sim::chance(1, 3); std::string tag = tagFor(i); bool was = L[i].refs > 0;
      sim::op("loadModel model %d on a%s session, default-entry %d", i, l.loaded ? " loaded" : "n empty", ep);
      int rc = attempt([&] { l.s->loadModel(L[i].path, tag, ep); });
      sim::ev("  -> %d", rc);
      if (l.loaded) { if (rc == 0) fail("second-load", "a loaded session accepted a second model"); }
      else {
        judge("loading a model", rc, mem);
        if (!rc) { l.loaded = true; l.lib = i; l.ep = ep; checkCtorEnv(i, was); }
        else sim::probe("failed load");
      }
      checkWorld("loading a model");
    } break;
    case 4: { // queries
      if (live.empty()) break;
      Live &l = live[sim::choose(live.size())]; int q = sim::choose(4); std::string got; std::string want; bool needEp = q < 2;
      sim::op("query %d", q);
      int rc = attempt([&] { std::string r = q == 0 ? l.s->inputSignature() : q == 1 ? l.s->outputSignature() : q == 2 ? l.s->compilationInfo() : (l.s->printInstrumentation(), std::string()); sim::Env e; got = r; });
      bool expectErr = !l.loaded || (needEp && !l.ep);
      if (rc == 2) { if (sim::faultsFiredOf("new-fails") == mem) fail("spurious-error", "query out of memory"); break; }
      if (expectErr != (rc == 1)) fail("query-outcome", "query %d on a %s session: result %d", q, l.loaded ? "loaded" : "empty", rc);
      if (rc) break;
      if (q < 2) { want = std::string(q ? "out" : "in") + (l.ep == 2 ? "2#" : "#") + std::to_string(l.lib); if (got != want) fail("query-value", "signature of model %d is %s", l.lib, got.c_str()); }
      if (q == 2 && got != "{info " + std::to_string(l.lib) + "}" && got != "{}") fail("query-value", "info of model %d is %s", l.lib, got.c_str());
    } break;
    case 5: { // set entry point
      if (live.empty()) break;
      Live &l = live[sim::choose(live.size())]; bool other = sim::chance(1, 2), bogus = sim::chance(1, 4);
      std::string name = bogus ? "no_such_entry" : other ? "run_other" : "run_main_graph";
      if (!bogus && l.loaded && L[l.lib].tagged) name += "_" + lower(L[l.lib].base);
      sim::op("setEntryPoint %s", name.c_str());
      int rc = attempt([&] { l.s->setEntryPoint(name); });
      if (!l.loaded) { if (rc != 1 && rc != 2) fail("query-outcome", "setting an entry point on an empty session gave %d", rc); break; }
      if (rc != 2) judge("setting the entry point", rc, mem);
      else if (sim::faultsFiredOf("new-fails") == mem) fail("spurious-error", "out of memory without cause");
      if (!rc) l.ep = other ? 2 : 1;
      else {
        // a failed change of entry point is not specified to keep the old one usable; set it again
        sim::armFaults(false); std::string def = std::string("run_main_graph") + (L[l.lib].tagged ? "_" + lower(L[l.lib].base) : "");
        int r2 = attempt([&] { l.s->setEntryPoint(def); }); l.ep = r2 ? 0 : 1;
        if (r2) { sim::Sut su; delete l.s; l = live.back(); live.pop_back(); }
        sim::armFaults(true);
      }
    } break;
    case 6: { // destroy
      if (live.empty()) break;
      size_t x = sim::choose(live.size()); Live l = live[x]; live.erase(live.begin() + x);
      sim::op("destroy %s session", l.loaded ? "loaded" : "empty");
      { sim::Sut s; delete l.s; }
      checkWorld("destroying a session");
    } break;
    case 7: { bool on = sim::chance(1, 3); sim::op("user %s the constant path", on ? "sets" : "unsets"); setUser(on); } break;
    }
    sim::state(sim::hashBytes(live.data(), 0) + live.size() * 131 + openHandles() * 7 + (userEnvSet ? 3 : 0) + [&] { uint64_t h = 0; for (auto &l : live) h = h * 31 + (l.lib + 2) * 4 + l.ep; return h; }());
  }
  // Once faults stop, every intact model loads.
  sim::armFaults(false);
  for (int i = 0; i < NLIB; i++) {
    bool okLib = L[i].exists; for (int s = 0; s < NSYM; s++) if (s != S_INFO && s != S_PRINT && s != S_RUN2 && !L[i].sym[s]) okLib = false;
    if (!okLib) continue;
    missedRequired = false; bool was = L[i].refs > 0; std::string tag = L[i].tagged ? "" : "NONE"; ExecutionSession *s = nullptr;
    int rc = attempt([&] { s = new ExecutionSession(L[i].path, tag, true); });
    if (rc) fail("no-recovery", "an intact model cannot be loaded any more");
    live.push_back({s, i, 1, true}); checkCtorEnv(i, was); checkWorld("the final load");
  }
  while (!live.empty()) { Live l = live.back(); live.pop_back(); { sim::Sut s; delete l.s; } checkWorld("the final destroy"); }
}

// ------------------------------------------------------------ P02 / P03
struct Plan { // what the model does in the next run
  int kind; // 0 success, 1 error, 2 signal
  int err, sig, how, nout; bool leaveErrno;
  int outKind[4];
} plan;
int modelCalls; std::vector<float> expectBits[4]; OMTensor *outT[4]; void *outData[4]; OMTensorList *outL; std::vector<void *> staticBufs;
int64_t outRank[4], outShape[4][3]; int outAlias[4];
float constData[64];
void crash(int sig, int how) {
  sim::countFault(sig == SIGSEGV ? "model-SIGSEGV" : sig == SIGBUS ? "model-SIGBUS" : sig == SIGFPE ? "model-SIGFPE" : sig == SIGILL ? "model-SIGILL" : "model-SIGABRT");
  if (how == 0) raise(sig);
  if (how == 1) kill(getpid(), sig);
  switch (sig) {
  case SIGSEGV: asm volatile("movl $0, (%%rax)" ::"a"(8) : "memory"); break;
  case SIGFPE: asm volatile("xorl %%ecx,%%ecx; movl $1,%%eax; cltd; idivl %%ecx" ::: "eax", "ecx", "edx"); break;
  case SIGILL: asm volatile("ud2"); break;
  case SIGABRT: abort();
  default: raise(sig);
  }
}
OMTensorList *modelRun(int lib, OMTensorList *in) {
  modelCalls++; L[lib].runs++;
  if (!in) fail("null-input", "the model was called with a null input list");
  int64_t n = omTensorListGetSize(in); double acc = 0;
  for (int64_t i = 0; i < n; i++) { OMTensor *t = omTensorListGetOmtByIndex(in, i); float *d = (float *)omTensorGetDataPtr(t); for (int64_t k = 0; k < omTensorGetNumElems(t); k++) acc += d[k]; }
  if (plan.kind == 2) { sim::ev("  model raises signal %d (way %d)", plan.sig, plan.how); crash(plan.sig, plan.how); sim::ev("  model continues after the signal"); }
  if (plan.kind == 1) { sim::ev("  model fails with %d", plan.err); if (plan.err) errno = plan.err; return nullptr; }
  sim::TagScope ts(sim::TAG_MODEL);
  OMTensor *arr[4];
  for (int o = 0; o < plan.nout; o++) {
    int64_t *sh = outShape[o], r = outRank[o], sz = 1; for (int k = 0; k < r; k++) sz *= sh[k];
    float *data; int64_t owning = 1; int kind = plan.outKind[o];
    if (kind == 2 && o == 0) kind = 0;
    if (kind == 0) { data = (float *)sim::envAlloc(sz * 4, sim::TAG_MODEL); for (int64_t k = 0; k < sz; k++) data[k] = acc + o * 100 + k; }
    else if (kind == 1) { data = constData; owning = 0; }
    else { data = (float *)outData[0]; owning = 0; } // shares the buffer of output 0
    outAlias[o] = kind; outData[o] = data;
    arr[o] = outT[o] = omTensorCreateWithOwnership(data, sh, r, ONNX_TYPE_FLOAT, owning);
    sim::TagScope th(sim::TAG_HARNESS); expectBits[o].clear();
    for (int64_t k = 0; k < sz; k++) expectBits[o].push_back(data[k]);
  }
  outL = omTensorListCreate(arr, plan.nout);
  if (plan.leaveErrno) errno = plan.err;
  return outL;
}
void drawPlan(bool signals) {
  plan = Plan(); int r = sim::choose(signals ? 6 : 4);
  plan.kind = r < 2 ? 0 : r == 2 ? 1 : r == 3 ? (signals ? 1 : 0) : 2;
  static const int errs[] = {0, EPERM, ENOMEM, ENOENT, EINVAL, EIO, E2BIG, ERANGE, 133};
  plan.err = errs[sim::choose(9)]; plan.leaveErrno = sim::chance(1, 4);
  if (plan.kind == 2) { static const int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}; plan.sig = sg[sim::choose(5)]; plan.how = sim::choose(3); }
  plan.nout = sim::choose(5);
  for (int o = 0; o < plan.nout; o++) {
    plan.outKind[o] = sim::choose(3); outRank[o] = 1 + sim::choose(3); int64_t sz = 1;
    for (int k = 0; k < outRank[o]; k++) { outShape[o][k] = 1 + sim::choose(3); sz *= outShape[o][k]; }
    if (o > 0 && plan.outKind[o] == 2) { // same buffer as output 0
      outRank[o] = outRank[0]; memcpy(outShape[o], outShape[0], sizeof outShape[0]);
    }
  }
}
void checkOut(OMTensor *t, int o) {
  if (omTensorGetRank(t) != outRank[o]) fail("wrong-output", "output %d has rank %ld", o, (long)omTensorGetRank(t));
  for (int k = 0; k < outRank[o]; k++) if (omTensorGetShape(t)[k] != outShape[o][k]) fail("wrong-output", "output %d has a wrong shape", o);
  if (omTensorGetDataType(t) != ONNX_TYPE_FLOAT) fail("wrong-output", "output %d has a wrong type", o);
  float *d = (float *)omTensorGetDataPtr(t);
  for (size_t k = 0; k < expectBits[o].size(); k++) if (d[k] != expectBits[o][k]) fail("wrong-output", "output %d element %zu differs", o, k);
}
void checkErrText(const std::string &m, int num, const char *txt, bool sig) {
  std::string n = std::to_string(num); size_t p = m.find(n);
  bool found = false;
  while (p != std::string::npos) { bool l = p == 0 || !isdigit(m[p - 1]), r = p + n.size() >= m.size() || !isdigit(m[p + n.size()]); if (l && r) { found = true; break; } p = m.find(n, p + 1); }
  if (!found && m.find(txt) == std::string::npos) fail(sig ? "wrong-signal-name" : "wrong-error-number", "the error does not report %s %d (%s): %s", sig ? "signal" : "error number", num, txt, m.c_str());
  if (m.find(txt) == std::string::npos) fail(sig ? "wrong-signal-name" : "wrong-error-number", "the error does not name '%s': %s", txt, m.c_str());
}
struct Disp { struct sigaction sa[32]; sigset_t mask; };
void snap(Disp &d) { for (int s = 1; s < 32; s++) { memset(&d.sa[s], 0, sizeof d.sa[s]); sigaction(s, nullptr, &d.sa[s]); } sigemptyset(&d.mask); sigprocmask(SIG_BLOCK, nullptr, &d.mask); }
void cmpDisp(const Disp &a, const char *after) {
  Disp b; snap(b);
  for (int s = 1; s < 32; s++) {
    bool same = !((a.sa[s].sa_flags ^ b.sa[s].sa_flags) & ~0x04000000 /* SA_RESTORER */) && a.sa[s].sa_handler == b.sa[s].sa_handler;
    for (int k = 1; k < 32 && same; k++) same = sigismember(&a.sa[s].sa_mask, k) == sigismember(&b.sa[s].sa_mask, k);
    if (!same) fail("disposition-changed", "after %s the disposition of signal %d (%s) differs from before the call", after, s, strsignal(s));
  }
  for (int k = 1; k < 32; k++) if (sigismember(&a.mask, k) != sigismember(&b.mask, k)) fail("mask-changed", "after %s signal %d (%s) is %s", after, k, strsignal(k), sigismember(&b.mask, k) ? "blocked" : "no longer blocked");
}
volatile int userHits[32]; int expectHits[32];
void userHandler(int s) { userHits[s]++; }
void userAction(int s, siginfo_t *, void *) { userHits[s]++; }

OMTensor *mkIn() {
  sim::TagScope ts(sim::TAG_MODEL); // inputs: released by whoever owns them
  int64_t sh[2] = {1 + (int64_t)sim::choose(3), 1 + (int64_t)sim::choose(3)};
  OMTensor *t;
  sim::Env e;
  float *d = (float *)sim::envAlloc(sh[0] * sh[1] * 4, sim::TAG_MODEL);
  for (int k = 0; k < sh[0] * sh[1]; k++) d[k] = 1 + k;
  t = omTensorCreateWithOwnership(d, sh, 2, ONNX_TYPE_FLOAT, 1);
  return t;
}
void runP02(bool p3) {
  sim::Env env; if (!p3) { sim::faultKinds({"malloc-fails", "new-fails"}); sim::allocFaults(true, true); } else sim::allocFaults(false, false);
  for (int k = 0; k < 64; k++) constData[k] = 1000 + k;
  makeLibs(false); sim::ledgerStart(); sim::allocTag(sim::TAG_HARNESS);
  const int own = 1 << sim::TAG_SUT | 1 << sim::TAG_MODEL;
  sim::armFaults(false);
  std::vector<ExecutionSession *> ss; std::vector<int> libs;
  int ns = 1 + sim::choose(2);
  for (int i = 0; i < ns; i++) { L[i].sym[S_PRINT] = !sim::chance(1, 3); sim::Sut s; ss.push_back(nullptr); ss.back() = new ExecutionSession(L[i].path, L[i].tagged ? "" : "NONE"); }
  size_t base = sim::ledgerLive(own); uint32_t mark = sim::ledgerMark();
  if (p3) { // user signal setup
    static const int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGUSR1};
    for (int s : sg) if (sim::chance(1, 2)) {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sigemptyset(&sa.sa_mask);
      switch (sim::choose(3)) { case 0: sa.sa_handler = userHandler; break; case 1: sa.sa_sigaction = userAction; sa.sa_flags = SA_SIGINFO | SA_NODEFER; break; case 2: sa.sa_handler = SIG_IGN; break; }
      if (sim::chance(1, 2)) sigaddset(&sa.sa_mask, SIGUSR2);
      if (sim::chance(1, 3)) sa.sa_flags |= SA_RESTART;
      sigaction(s, &sa, nullptr);
    }
    sigset_t m; sigemptyset(&m); static const int bl[] = {SIGUSR1, SIGUSR2, SIGTERM, SIGCHLD}; for (int s : bl) if (sim::chance(1, 4)) sigaddset(&m, s);
    sigprocmask(SIG_SETMASK, &m, nullptr);
  }
  sim::armFaults(!p3);
  int n = 1 + sim::choose(6); size_t leakOk = 0;
  for (int k = 0; k < n; k++) {
    ExecutionSession *s = ss[sim::choose(ss.size())];
    drawPlan(p3);
    int mode = p3 ? (sim::chance(1, 5) ? 1 : 3) : sim::choose(4); // 0 vector, 1 list, 2 debug, 3 debug+signal guard
    if (p3 && mode != 3 && plan.kind == 2) plan.kind = 0;
    if (p3 && sim::chance(1, 6)) { // an unrelated signal reaches the user's own disposition
      static const int sg[] = {SIGUSR1, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}; int sgn = sg[sim::choose(6)]; struct sigaction sa; sigaction(sgn, nullptr, &sa);
      sigset_t mk; sigprocmask(SIG_BLOCK, nullptr, &mk);
      if (sa.sa_handler == userHandler || sa.sa_sigaction == userAction) if (!sigismember(&mk, sgn)) { sim::op("user raises %d", sgn); int b = userHits[sgn]; raise(sgn); if (userHits[sgn] != b + 1) fail("user-handler-lost", "the user's handler of signal %d did not run", sgn); }
    }
    std::vector<OMTensor *> ins; int nin = sim::choose(4); for (int i = 0; i < nin; i++) ins.push_back(mkIn());
    std::vector<uint64_t> inHash; auto hashIn = [&](OMTensor *t) { return sim::hashBytes(omTensorGetDataPtr(t), omTensorGetNumElems(t) * 4, omTensorGetNumElems(t)); };
    for (auto *t : ins) inHash.push_back(hashIn(t));
    static const char *mn[] = {"vector", "list", "debug", "guarded"};
    sim::op("run %s, model %s, %d inputs, %d outputs", mn[mode], plan.kind == 0 ? "succeeds" : plan.kind == 1 ? "fails" : "crashes", nin, plan.nout);
    modelCalls = 0; int rc; std::string msg; unsigned fb = sim::faultsFired();
    errno = sim::chance(1, 2) ? EBADF : 0;
    if (mode == 0) {
      std::vector<OMTensorUniquePtr> v, outs; for (auto *t : ins) v.emplace_back(t, omTensorDestroy);
      rc = attempt([&] { auto r = s->run(std::move(v)); sim::Env e; outs = std::move(r); }, &msg);
      if (rc == 0) {
        if ((int)outs.size() != plan.nout) fail("wrong-output", "%zu outputs instead of %d", outs.size(), plan.nout);
        for (size_t i = 0; i < outs.size(); i++) {
          if (!sim::ledgerIsLive(outs[i].get())) fail("released-output", "output %zu was released before the caller saw it", i);
          checkOut(outs[i].get(), i);
        }
        if (outL && sim::ledgerIsLive(outL)) { /* list wrapper must be gone: caught by the ledger below */ }
      }
      outs.clear(); v.clear();
    } else {
      OMTensorList *il; { sim::TagScope ts(sim::TAG_MODEL); il = omTensorListCreate(ins.data(), nin); }
      OMTensorList *ol = nullptr; Disp d0; snap(d0);
      rc = attempt([&] { ol = mode == 1 ? s->run(il) : s->runDebug(il, mode == 3); }, &msg);
      if (p3) cmpDisp(d0, mode == 3 ? "a guarded run" : "a run");
      if (!sim::ledgerIsLive(il) || omTensorListGetSize(il) != nin) fail("input-released", "the input list was released or changed by the run");
      for (int i = 0; i < nin; i++) { OMTensor *t = omTensorListGetOmtByIndex(il, i); if (t != ins[i] || !sim::ledgerIsLive(t) || !sim::ledgerIsLive(omTensorGetDataPtr(t)) || hashIn(t) != inHash[i]) fail("input-changed", "input %d was released or changed by the run", i); }
      if (rc == 0) {
        if (!ol) fail("null-result", "a run returned null without reporting an error");
        if (omTensorListGetSize(ol) != plan.nout) fail("wrong-output", "a wrong number of outputs");
        for (int i = 0; i < plan.nout; i++) { if (!sim::ledgerIsLive(omTensorListGetOmtByIndex(ol, i))) fail("released-output", "output %d was released before the caller saw it", i); checkOut(omTensorListGetOmtByIndex(ol, i), i); }
        omTensorListDestroy(ol);
      }
      omTensorListDestroy(il);
    }
    sim::ev("  -> %d", rc);
    bool mem = sim::faultsFired() != fb && !p3;
    if (!mem && modelCalls != 1) fail("model-calls", "one run called the model %d times", modelCalls);
    if (modelCalls > 1) fail("model-calls", "one run called the model %d times", modelCalls);
    if (plan.kind == 0 && !mem && rc) fail("success-as-error", "the model succeeded but the run reported: %s", msg.c_str());
    if (plan.kind == 1) {
      if (rc == 0 && modelCalls) fail("error-as-success", "the model failed but the run reported success");
      if (rc == 1 && !mem) checkErrText(msg, plan.err, strerror(plan.err), false);
    }
    if (plan.kind == 2) {
      if (rc == 0) fail("crash-as-success", "the model crashed but the run reported success");
      checkErrText(msg, plan.sig, strsignal(plan.sig), true);
    }
    if (rc == 2 && !mem) fail("spurious-error", "out of memory without cause");
    if (modelCalls == 0 && rc == 0) fail("model-calls", "the model never ran but the run reported success");
    if (rc && mem && modelCalls && plan.kind == 0) sim::probe("allocation failed after the model ran");
    if (rc && mem && !modelCalls) sim::probe("allocation failed before the model ran");
    if (plan.kind == 2) leakOk = sim::ledgerLive(own) - base; // a crashed model's own blocks are lost
    if (!p3 && sim::ledgerLive(own) != base + leakOk) fail(sim::ledgerLive(own) > base + leakOk ? "memory-leak" : "over-release", "after the run %zu blocks are live instead of %zu: %s", sim::ledgerLive(own), base + leakOk, sim::ledgerDescribe(own, mark).c_str());
    sim::state((uint64_t)mode * 1000 + plan.kind * 100 + plan.nout * 10 + rc + (mem ? 5000 : 0) + plan.sig * 100000);
  }
  sim::armFaults(false);
  for (auto *s : ss) { sim::Sut x; delete s; }
}
void warm() { // touch lazily initialised library state before forking
  std::string s = "warm"; try { throw ExecutionSessionException(s); } catch (...) {}
  (void)strerror(5); (void)strsignal(11);
}
} // namespace
void *sim::envAlloc(size_t n, Tag t) { TagScope ts(t); Env e; return malloc(n); }
int main(int argc, char **argv) {
  sim::Options o;
  return sim::simMain(argc, argv, o, warm, [] {
    if (sim::prop() == "P01") runP01(); else runP02(sim::prop() == "P03");
  });
}
