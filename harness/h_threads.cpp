// P16/P18/P22/P24: several threads inside the runtime, under the deterministic
// scheduler. Real: OMRuntimeNNPA.c, jnilog.c (both variants), ExecutionSession,
// OMTensor, OMTensorList, sort, top-k, unique, resize, index lookup, external
// constants. Stub: the accelerator library, the dynamic loader and the models.
#include "ExecutionSession.hpp"
#include "OMTensorHelper.hpp"
#include "OMTensorListHelper.hpp"
#include "simsched.h"
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace onnx_mlir;
using sim::fail;
extern char **environ;
extern "C" {
extern long OMIsInitAccelNNPA; void OMInitAccelNNPA(); uint64_t OMInitCompatibleAccelNNPA(uint64_t); void OMShutdownAccelNNPA(); void *OMHugePageMalloc(size_t);
void omTensorSort(OMTensor *, const OMTensor *, uint64_t, uint64_t);
void omTensorTopK(OMTensor *, const OMTensor *, uint64_t, uint64_t, uint64_t, uint64_t);
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
void quick_sort_custom(void *, size_t, size_t, int (*)(const void *, const void *, void *), void *);
typedef int cmpFn(const void *, const void *, void *); cmpFn *getCompareFunction(uint64_t, OM_DATA_TYPE);
uint64_t find_index_str(const char *, const int32_t[], const int32_t[], int32_t); uint64_t find_index_i64(int64_t, const int32_t[], const int32_t[], int32_t);
void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *); void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *);
bool omLoadConstantData(void **, char *, int64_t, int64_t); bool omUnloadConstantData(void **, int64_t); void omGetExternalConstantAddr(void **, void **, int64_t);
float om_f16_to_f32(uint16_t); uint16_t om_f32_to_f16(float);
}
namespace {
std::string envSnap() { std::vector<std::string> v; for (char **e = environ; *e; e++) v.push_back(*e); std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += x + "\n"; return s; }
struct Rng { uint64_t x; uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return next() % n; } };
void note() { sim::state("sw" + std::to_string(sim::schedSwitches()) + "p" + std::to_string(sim::schedPreemptions())); }

// ================================================================= P16
struct { int inside, begun, done, epoch; uint32_t lib, max; bool installed; int compatDone; } A;
} // namespace
extern "C" {
void zdnnx_init(void) {
  sim::Env e;
  sim::ev("accelerator initialisation begins"); A.begun++;
  if (A.inside++) fail("init-twice", "two threads initialise the accelerator at the same time");
  if (A.done >= A.epoch) fail("init-twice", "the accelerator is initialised again although no shutdown happened");
  int n = 1 + sim::choose(4); for (int i = 0; i < n; i++) { sim::advance(1000000); sim::yieldPoint("device"); }
  A.inside--; A.done++; sim::ev("accelerator initialisation ends");
}
bool zdnn_is_version_runnable(uint32_t v) {
  sim::Env e; if (A.inside) fail("use-before-init", "the accelerator was asked for its version while it was being initialised");
  if (A.done < A.epoch) fail("use-before-init", "the accelerator was asked for its version before it was initialised");
  sim::yieldPoint("device"); bool ok = A.installed && v <= A.max; if (ok) A.compatDone++; return ok;
}
bool zdnn_is_nnpa_installed(void) { sim::Env e; sim::yieldPoint("device"); return A.installed; }
uint32_t zdnn_get_library_version(void) { return A.lib; }
uint32_t zdnn_get_max_runnable_version(void) { return A.installed ? A.max : 0; }
}
namespace {
// The buffers a model for the accelerator works in: of any size, also when
// there is no aligned memory.
void hugeBuffers() {
  const size_t P = 1 << 20; int n = 1 + sim::choose(3); std::vector<void *> got;
  sim::faultKinds({"malloc-fails"}); sim::allocFaults(true, false); sim::armFaults(sim::chance(1, 2));
  for (int i = 0; i < n; i++) {
    size_t size = sim::choose(4) * P; int d = sim::choose(5); size += d == 1 ? 1 : d == 2 ? P / 2 + 3 : d == 3 ? 4096 : d == 4 && size ? (size_t)-1 : 0;
    unsigned f = sim::faultsFired(); void *p; { sim::Sut s; p = OMHugePageMalloc(size); } f = sim::faultsFired() - f;
    sim::op("buffer of %zu bytes -> %d", size, p != nullptr);
    if (!size) { if (p) got.push_back(p); continue; }
    if (!p) { if (f < (size < P ? 1u : 2u)) fail("no-buffer", "no buffer of %zu bytes although ordinary memory was available", size); continue; }
    if (f) sim::probe("buffer although no aligned memory was available");
    if (malloc_usable_size(p) < size) fail("short-buffer", "a buffer of %zu bytes has only %zu", size, malloc_usable_size(p));
    if (!f && size >= P && (uintptr_t)p % P) fail("unaligned-buffer", "a buffer of %zu bytes is not aligned to a huge page", size);
    memset(p, 0x5a, size); got.push_back(p);
  }
  sim::armFaults(false); sim::allocFaults(false, false);
  sim::Sut s; for (void *p : got) free(p);
}
void runP16() {
  sim::Env env; sim::ledgerStart();
  A.lib = 0x10105; A.max = 0x10000 + 0x100 * sim::choose(3); A.installed = !sim::chance(1, 6);
  if (sim::chance(1, 6)) { close(2); sim::countFault("stderr-closed"); }
  else if (sim::chance(1, 8)) { int fd = open("/dev/full", O_WRONLY); if (fd < 0) { close(2); } else { dup2(fd, 2); close(fd); } sim::countFault("stderr-closed"); }
  int epochs = 1 + sim::choose(3); A.epoch = 0;
  sim::op("accelerator max %x installed %d", A.max, A.installed);
  if (sim::chance(1, 3)) hugeBuffers();
  sim::schedStart();
  for (int ep = 0; ep < epochs; ep++) {
    A.epoch++;
    int n = 2 + sim::choose(3); std::vector<int> ts;
    for (int t = 0; t < n; t++) {
      int k = 1 + sim::choose(3); std::vector<int> mode; std::vector<uint32_t> ver;
      for (int i = 0; i < k; i++) { mode.push_back(sim::choose(4)); ver.push_back(0x10000 + 0x100 * sim::choose(4)); }
      char nm[16]; snprintf(nm, sizeof nm, "model%d", t);
      ts.push_back(sim::taskSpawn(nm, [=] {
        for (int i = 0; i < k; i++) {
          bool compat = mode[i] >= 2; uint64_t r = 1; int err = 0;
          static const int junk[] = {0, ENOENT, EBADF, EINTR}; int j = junk[i & 3];
          { sim::Sut s; errno = j;
            if (mode[i] == 0) { if (!OMIsInitAccelNNPA) OMInitAccelNNPA(); }
            else if (mode[i] == 1) OMInitAccelNNPA();
            else r = OMInitCompatibleAccelNNPA(ver[i]);
            err = errno; }
          sim::op("%d: mode %d version %x -> %d errno %d", sim::taskSelf(), mode[i], ver[i], (int)r, r ? 0 : err);
          if (A.inside || A.done < A.epoch) fail("use-before-init", "a thread was told to proceed before the accelerator was initialised");
          if (!compat) continue;
          bool runnable = A.installed && ver[i] <= A.max;
          if (runnable && !r) fail("compatible-refused", "a model for version %x was refused by an accelerator that supports it", ver[i]);
          if (!runnable && r && !A.compatDone) fail("incompatible-accepted", "a model for version %x was accepted by an accelerator that does not support it", ver[i]);
          if (!r && err != EPERM) fail("wrong-errno", "an incompatible model was refused with errno %d instead of EPERM", err);
          if (!r) sim::probe("incompatible model refused");
        }
      }));
    }
    for (int t : ts) sim::taskJoin(t);
    if (A.begun != A.epoch || A.done != A.epoch) fail("init-count", "the accelerator was initialised %d times for %d periods of use", A.begun, A.epoch);
    sim::state("ep" + std::to_string(ep) + "n" + std::to_string(n) + "c" + std::to_string(A.compatDone > 0) + "i" + std::to_string(A.installed)); note();
    if (ep + 1 < epochs) {
      sim::op("shutdown"); sim::probe("initialised again after a shutdown");
      int m = 1 + sim::choose(2); std::vector<int> sd;
      for (int i = 0; i < m; i++) sd.push_back(sim::taskSpawn("shutdown", [] { sim::Sut s; OMShutdownAccelNNPA(); }));
      for (int t : sd) sim::taskJoin(t);
    }
  }
  sim::schedFinish();
}

// ================================================================= P18
} // namespace
extern "C" {
void log_init(void); void log_printf(int, const char *, const char *, int, const char *, ...);
void ps_log_init(void); void ps_log_printf(int, const char *, const char *, int, const char *, ...);
FILE *__real_fopen(const char *, const char *); time_t __real_time(time_t *); 
struct tm *__real_localtime(const time_t *); struct tm *__real_localtime_r(const time_t *, struct tm *);
}
namespace {
bool g_log = false;
std::map<std::string, std::string> logOpened; // path -> task name
std::vector<FILE *> logFiles;
thread_local std::vector<int64_t> clockRead; // what this thread's current call was told
time_t simTime() { return 1593753462 + (time_t)(sim::now() / 1000000000ull); }
}
extern "C" {
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!sim::active() || !sim::inSut()) return __real_fopen(p, m);
  sim::yieldPoint("fopen");
  if (sim::fault("open-fails")) { errno = EMFILE; return nullptr; }
  return __real_fopen(p, m);
}
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_close(int); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
static void sys(const char *w) { if (sim::active() && sim::inSut()) sim::yieldPoint(w); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); sys("open"); return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); sys("open"); return __real_open64(p, f, m); }
int __wrap_close(int fd) { sys("close"); return __real_close(fd); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int fd, off_t o) { sys("mmap"); return __real_mmap(p, n, a, b, fd, o); }
int __wrap_munmap(void *p, size_t n) { sys("munmap"); return __real_munmap(p, n); }
time_t __wrap_time(time_t *t) {
  if (!sim::active() || !sim::inSut()) return __real_time(t);
  if (sim::fault("clock-fails")) return (time_t)-1;
  sim::advance(1000000000ull * 86399); sim::yieldPoint("time"); time_t v = simTime(); if (t) *t = v; sim::Env e; clockRead.push_back(v); return v;
}
struct tm *__wrap_localtime(const time_t *t) {
  if (!sim::active() || !sim::inSut()) return __real_localtime(t);
  if (sim::fault("clock-fails")) return nullptr;
  sim::yieldPoint("localtime"); struct tm *r = __real_localtime(t); sim::yieldPoint("localtime"); return r;
}
struct tm *__wrap_localtime_r(const time_t *t, struct tm *r) {
  if (!sim::active() || !sim::inSut()) return __real_localtime_r(t, r);
  if (sim::fault("clock-fails")) return nullptr;
  return __real_localtime_r(t, r);
}
}
namespace {
struct Msg { int level; std::string text; std::string file, func; int line; int64_t t0, t1; std::vector<int64_t> read; };
const char *levelNames[] = {"trace", "debug", "info", "warning", "error", "fatal"};
std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
std::vector<std::string> listDir(const std::string &d);
void runP18() {
  sim::Env env; sim::ledgerStart(); sim::faultKinds({"open-fails", "malloc-fails", "clock-fails"}); sim::allocFaults(true, false);
  bool ps = sim::chance(1, 2);
  auto init = ps ? ps_log_init : log_init; auto print = ps ? ps_log_printf : log_printf;
  std::string dir = sim::scratch(), ldir = dir + "/l", stem = "log";
  mkdir(ldir.c_str(), 0700);
  // the configured name: short, or deep, long and with unusual characters
  if (sim::chance(1, 3)) {
    int deep = sim::choose(4);
    for (int i = 0; i < deep; i++) { ldir += "/" + std::string(1 + sim::choose(200), 'd'); mkdir(ldir.c_str(), 0700); }
    static const char *odd[] = {"", "%s%n%d", " a b", ".x", "stdout"}; stem += odd[sim::choose(5)];
    if (sim::chance(1, 2)) stem += std::string(sim::choose(200), 'n');
    if (ldir.size() + stem.size() > 120) sim::probe("long log file name");
  }
  std::string base = ldir + "/" + stem;
  // destinations of the process
  std::string so = dir + "/stdout", se = dir + "/stderr";
  int fo = open(so.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600), fe = open(se.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
  fflush(stdout); fflush(stderr); dup2(fo, 1); dup2(fe, 2); close(fo); close(fe);
  int dst = sim::choose(5); // 0 unset 1 stdout 2 stderr 3 file 4 file that cannot be opened
  int lvl = sim::choose(8); // 6 unknown name, 7 unset
  std::string cfg = dst == 1 ? "stdout" : dst == 2 ? "stderr" : dst == 4 ? dir + "/no/such/dir/log" : base;
  if (dst) setenv("ONNX_MLIR_JNI_LOG_FILE", cfg.c_str(), 1); else unsetenv("ONNX_MLIR_JNI_LOG_FILE");
  if (lvl < 6) setenv("ONNX_MLIR_JNI_LOG_LEVEL", levelNames[lvl], 1); else if (lvl == 6) setenv("ONNX_MLIR_JNI_LOG_LEVEL", "verbose", 1); else unsetenv("ONNX_MLIR_JNI_LOG_LEVEL");
  int minLevel = lvl < 6 ? lvl : 2;
  sim::op("destination %d level %d variant %d", dst, lvl, ps);
  int n = 1 + sim::choose(3), gate = 0; struct Res { std::vector<Msg> m; std::string id; bool fellBack = false; }; std::vector<Res> R(n);
  sim::schedStart();
  for (int t = 0; t < n; t++) {
    std::vector<Msg> plan; int k = 1 + sim::choose(5); 
    for (int i = 0; i < k; i++) {
      Msg m; m.level = sim::choose(6); static const int lens[] = {0, 5, 40, 300, 3000, 3990, 4010, 4030, 4050, 4090, 4096, 4200, 9000};
      int len = lens[sim::choose(13)]; if (len > 3000 && sim::chance(1, 2)) len += sim::choose(40);
      char head[64]; snprintf(head, sizeof head, "<%d.%d>", t, i); m.text = head; while ((int)m.text.size() < len) m.text += (char)('a' + (m.text.size() * 7 + i) % 26);
      static const char *files[] = {"jniwrapper.c", "/a/b/jniwrapper.c", "dir/x.c", ""}; m.file = files[sim::choose(4)]; m.func = sim::chance(1, 8) ? std::string(sim::chance(1, 4) ? 5000 : 200, 'f') : "func"; m.line = 10 * t + i; plan.push_back(m);
    }
    char nm[16]; snprintf(nm, sizeof nm, "java%d", t);
    sim::taskSpawn(nm, [=, &R, &gate] {
      char id[32]; pthread_t self = pthread_self(); snprintf(id, sizeof id, "%016lx", *(unsigned long *)&self); R[t].id = id;
      for (auto m : plan) {
        unsigned f0 = sim::faultsFired(); m.t0 = simTime(); clockRead.clear();
        { sim::Sut s; init(); print(m.level, m.file.c_str(), m.func.c_str(), m.line, m.level & 1 ? "%s" : "%.20000s", m.text.c_str()); }
        m.t1 = simTime(); m.read = clockRead; if (sim::faultsFired() != f0) m.t0 = -1;
        sim::op("java%d logs level %d length %zu", t, m.level, m.text.size()); R[t].m.push_back(m);
      }
      // a file belongs to the thread as long as the thread lives
      gate++; sim::wakeOn(&gate, true); while (gate < n) sim::blockOn(&gate, "the other threads");
    });
  }
  sim::schedFinish(); note();
  bool faults = sim::faultsFired() > 0;
  auto lines = [](const std::string &s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) { v.push_back(s.substr(p) + "<no newline>"); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; };
  std::map<std::string, std::vector<std::string>> got; // by destination
  got["stdout"] = lines(slurp(so)); got["stderr"] = lines(slurp(se));
  for (auto &f : listDir(ldir)) if (f != "." && f != ".." && f[0] != 'd') { got[f] = lines(slurp(ldir + "/" + f)); }
  // every message: which destinations are allowed, exactly one line there
  for (int t = 0; t < n; t++) {
    std::string mine = stem + "." + R[t].id, want = dst == 1 ? "stdout" : dst == 3 ? mine : "stderr", seen;
    size_t prevAt = 0; std::string prevDst;
    for (auto &m : R[t].m) {
      if (m.func.size() > 4096) { sim::probe("no room for the message"); continue; }
      char tail[600]; snprintf(tail, sizeof tail, "[%s][%s]%s:%s:%d ", R[t].id.c_str(), levelNames[m.level], m.file.empty() ? "" : m.file.substr(m.file.rfind('/') == std::string::npos ? 0 : m.file.rfind('/') + 1).c_str(), m.func.c_str(), m.line);
      std::string key = std::string(tail) + m.text.substr(0, m.text.find('>') + 1); int cnt = 0; std::string at, line; size_t pos = 0;
      for (auto &g : got) for (size_t i = 0; i < g.second.size(); i++) { size_t p = g.second[i].find(key); if (p != std::string::npos) { cnt++; at = g.first; line = g.second[i]; pos = i + 1; if (g.second[i].find("[", 1) != p && p != g.second[i].find(tail)) cnt += 100; } }
      if (m.level < minLevel) { if (cnt) fail("disabled-message", "a message of level %s was written although it is not enabled", levelNames[m.level]); continue; }
      if (cnt == 0) fail("message-lost", "a message of %zu characters of thread %d was not written", m.text.size(), t);
      if (cnt > 1) fail("message-twice", "a message of thread %d was written %d times", t, cnt);
      bool fallback = at == "stderr" && faults && dst == 3;
      if (at != want && !fallback) fail("wrong-destination", "a message of thread %d went to %s instead of %s", t, at == mine ? "its file" : at.c_str(), dst == 3 ? "its file" : want.c_str());
      if (fallback) sim::probe("fell back to standard error");
      if (!seen.empty() && seen != at) fail("wrong-destination", "messages of thread %d went to different destinations", t);
      seen = at; if (pos < prevAt) fail("message-order", "messages of thread %d are out of order", t);
      prevAt = pos;
      size_t p = line.find(key); std::string stamp = line.substr(0, p), body = line.substr(p + strlen(tail));
      if (body.size() > 12 && body.compare(body.size() - 12, 12, "<no newline>") == 0) fail("message-run-on", "a message of %zu characters of thread %d does not end its line", m.text.size(), t);
      size_t room = 4096 - 2 - p - strlen(tail); // the documented maximum is 4096 with the newline and the terminator
      if (m.text.size() <= room ? body != m.text : (body.size() + 4 < room || body.compare(0, std::min(body.size(), room - 4), m.text, 0, std::min(body.size(), room - 4)))) fail("message-garbled", "a message of %zu characters of thread %d was written as %zu characters", m.text.size(), t, body.size());
      if (m.text.size() > room) sim::probe("message longer than the maximum");
      if (stamp == "[-]") { if (m.t0 >= 0) fail("no-time", "a message has no time although the clock worked"); sim::probe("clock failed"); }
      else {
        struct tm tm; memset(&tm, 0, sizeof tm); const char *e = strptime(stamp.c_str(), "[%Y-%m-%d %H:%M:%S %z]", &tm);
        if (!e || *e) fail("garbled-time", "a message starts with '%.60s'", stamp.c_str());
        long off = tm.tm_gmtoff; time_t v = timegm(&tm) - off;
        if (m.t0 >= 0 && (v < m.t0 || v > m.t1)) fail("wrong-time", "a message of thread %d carries a time %lld s away from the time of its call", t, (long long)(v < m.t0 ? m.t0 - v : v - m.t1));
        if (m.t0 >= 0 && !m.read.empty() && std::find(m.read.begin(), m.read.end(), (int64_t)v) == m.read.end()) fail("wrong-time", "a message of thread %d carries a time that its call did not read", t);
      }
    }
  }
  size_t total = 0, expect = 0; for (auto &g : got) total += g.second.size(); for (auto &r : R) for (auto &m : r.m) expect += m.level >= minLevel;
  if (total != expect) fail("extra-lines", "%zu lines were written for %zu messages", total, expect);
  sim::state("d" + std::to_string(dst) + "l" + std::to_string(minLevel) + "n" + std::to_string(n) + "f" + std::to_string(faults));
}
#include <dirent.h>
#include <dlfcn.h>
std::vector<std::string> listDir(const std::string &d) { std::vector<std::string> v; DIR *p = opendir(d.c_str()); if (!p) return v; while (auto *e = readdir(p)) v.push_back(e->d_name); closedir(p); std::sort(v.begin(), v.end()); return v; }

// ================================================================= loader for P22 and P24
enum Sym { S_QUERY, S_IN, S_OUT, S_INFO, S_PRINT, S_RUN, NSYM };
struct Lib { std::string path, base, dir; bool hasDir, exists, tagged, sym[NSYM]; int refs, constructing; bool usesConst; std::string constFile; int64_t constSize; void *addr; int seenEnv; std::string envSeen; };
const int NLIB = 4; Lib L[NLIB]; struct Handle { int lib; bool open; }; std::vector<Handle *> handles; int dlOwner = -1, dlDepth;
const char *names[NSYM] = {"omQueryEntryPoints", "omInputSignature", "omOutputSignature", "omCompilationInfo", "omInstrumentPrint", "run_main_graph"};
std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
int64_t constByte(int lib, int64_t i) { return (lib * 31 + i * 7 + (i >> 8)) & 0xff; }
void alive(int i, const char *what) { if (L[i].refs <= 0) fail("use-after-close", "%s of model %d called after its library was closed", what, i); }
// The model: returns, for each input, a tensor of the same shape with lib + 3*x, through runtime calls.
OMTensorList *model(int lib, OMTensorList *in) {
  int64_t n = omTensorListGetSize(in); OMTensor **arr = (OMTensor **)malloc(sizeof(OMTensor *) * n);
  for (int64_t i = 0; i < n; i++) {
    OMTensor *x = omTensorListGetOmtByIndex(in, i); int64_t c = omTensorGetNumElems(x);
    OMTensor *y = omTensorCreateEmpty(omTensorGetShape(x), omTensorGetRank(x), ONNX_TYPE_INT64);
    int64_t *px = (int64_t *)omTensorGetDataPtr(x), *py = (int64_t *)omTensorGetDataPtr(y);
    for (int64_t k = 0; k < c; k++) { py[k] = px[k] * 3 + lib; if (L[lib].usesConst && L[lib].addr) py[k] += ((unsigned char *)L[lib].addr)[k % L[lib].constSize]; }
    sim::yieldPoint("model"); arr[i] = y;
  }
  OMTensorList *r = omTensorListCreate(arr, n); free(arr); return r;
}
template <int I> struct M {
  static const char **query(int64_t *n) { sim::Env e; alive(I, "omQueryEntryPoints"); static const char *eps[] = {"run_main_graph", nullptr}; static const char *ept[4][2] = {{"run_main_graph_alpha", 0}, {"run_main_graph_beta.net", 0}, {"run_main_graph_gamma", 0}, {"run_main_graph_delta", 0}}; if (n) *n = 1; return L[I].tagged ? ept[I] : eps; }
  static const char *in(const char *) { sim::Env e; alive(I, "omInputSignature"); static const char *s[] = {"in#0", "in#1", "in#2", "in#3"}; sim::yieldPoint("model"); return s[I]; }
  static const char *out(const char *) { sim::Env e; alive(I, "omOutputSignature"); static const char *s[] = {"out#0", "out#1", "out#2", "out#3"}; sim::yieldPoint("model"); return s[I]; }
  static const char *info() { sim::Env e; alive(I, "omCompilationInfo"); static const char *s[] = {"{0}", "{1}", "{2}", "{3}"}; return s[I]; }
  static void print() { sim::Env e; alive(I, "omInstrumentPrint"); }
  static OMTensorList *run(OMTensorList *l) { alive(I, "run_main_graph"); return model(I, l); }
  static void *fn(int s) { void *t[] = {(void *)query, (void *)in, (void *)out, (void *)info, (void *)print, (void *)run}; return t[s]; }
};
void *libFn(int i, int s) { switch (i) { case 0: return M<0>::fn(s); case 1: return M<1>::fn(s); case 2: return M<2>::fn(s); default: return M<3>::fn(s); } }
void dlLock() { if (!sim::schedOn()) return; sim::yieldPoint("loader"); int me = sim::taskSelf(); while (dlOwner >= 0 && dlOwner != me) sim::blockOn(&dlOwner, "the loader lock"); dlOwner = me; dlDepth++; }
void dlUnlock() { if (!sim::schedOn()) return; if (--dlDepth == 0) { dlOwner = -1; sim::wakeOn(&dlOwner, true); } sim::yieldPoint("loader"); }
} // namespace
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *__wrap_dlopen(const char *path, int flags) {
  if (!sim::active()) return __real_dlopen(path, flags);
  dlLock(); bool f = sim::fault("dlopen-fails"); bool sut = sim::inSut(); sim::Env e; int lib = -1;
  for (int i = 0; i < NLIB; i++) if (path && L[i].path == path) lib = i;
  if (lib < 0 || !L[lib].exists || f) { sim::probe("open failed"); sim::ev("  dlopen model %d -> null", lib); dlUnlock(); return nullptr; }
  if (L[lib].refs == 0) { // library constructors
    sim::yieldPoint("constructor"); const char *v = getenv("OM_CONSTANT_PATH"); L[lib].seenEnv = v ? 2 : 1; L[lib].envSeen = v ? v : "";
    L[lib].addr = nullptr;
    if (L[lib].usesConst) { bool ok; { bool p = sut; if (p) { sim::Sut s; ok = omLoadConstantData(&L[lib].addr, (char *)L[lib].constFile.c_str(), L[lib].constSize, 1); } else ok = omLoadConstantData(&L[lib].addr, (char *)L[lib].constFile.c_str(), L[lib].constSize, 1); } sim::ev("  constants of model %d loaded: %d", lib, ok); }
  }
  L[lib].refs++;
  handles.push_back(new Handle{lib, true}); sim::ev("  dlopen model %d", lib); void *h = handles.back(); dlUnlock(); return h;
}
void *__wrap_dlsym(void *h, const char *name) {
  if (!sim::active() || h == RTLD_NEXT) return __real_dlsym(h, name);
  sim::yieldPoint("dlsym");
  bool ok = false; int lib = -1; for (auto *x : handles) if (x == h && x->open) { ok = true; lib = x->lib; }
  if (!ok) fail("bad-dlsym", "symbol lookup through a handle that is not open");
  bool f = sim::fault("dlsym-fails"); sim::Env e; std::string n = name;
  for (int s = 0; s < NSYM; s++) { std::string want = names[s]; if (s != S_PRINT && L[lib].tagged) want += "_" + lower(L[lib].base); if (n == want && L[lib].sym[s] && !f) return libFn(lib, s); }
  sim::ev("  dlsym %s -> null", name); sim::probe("symbol missing"); return nullptr;
}
int __wrap_dlclose(void *h) {
  if (!sim::active()) return __real_dlclose(h);
  dlLock(); sim::Env e;
  for (auto *x : handles) if (x == h) {
    if (!x->open) fail("double-dlclose", "a library handle was closed twice");
    x->open = false; if (--L[x->lib].refs == 0 && L[x->lib].addr) omUnloadConstantData(&L[x->lib].addr, L[x->lib].constSize); dlUnlock(); return 0;
  }
  fail("bad-dlclose", "a value that is not an open library handle was closed");
}
char *__wrap_dlerror() { return (char *)"simulated loader error"; }
}
namespace {
void makeLibs(bool broken, bool constants) {
  std::string d = sim::scratch(); std::string dirs[NLIB] = {d + "/one", d + "/two", "", d + "/four"};
  static const char *bases[NLIB] = {"alpha", "Beta.Net", "gamma", "delta"};
  for (int i = 0; i < NLIB; i++) {
    Lib &l = L[i]; l.base = bases[i]; l.dir = dirs[i]; l.hasDir = !dirs[i].empty(); l.path = (l.hasDir ? l.dir + "/" : "") + l.base + ".so"; l.refs = 0; l.exists = true; l.tagged = !sim::chance(1, 3); l.addr = nullptr; l.seenEnv = 0;
    for (int s = 0; s < NSYM; s++) l.sym[s] = true;
    if (broken && sim::chance(1, 4)) { if (sim::chance(1, 3)) l.exists = false; else l.sym[sim::choose(NSYM)] = false; }
    l.usesConst = constants && l.hasDir && sim::chance(1, 2); l.constFile = "model.constants.bin"; l.constSize = 100 + 13 * i; // same file name in each directory
    if (l.hasDir) { mkdir(l.dir.c_str(), 0700); std::string f = l.dir + "/" + l.constFile; FILE *o = fopen(f.c_str(), "w"); for (int64_t k = 0; k < l.constSize; k++) fputc((int)constByte(i, k), o); fclose(o); }
  }
}
bool requiredMissing(int i) { for (int s : {S_QUERY, S_IN, S_OUT}) if (!L[i].sym[s]) return true; return false; }
int openHandles() { int n = 0; for (auto *h : handles) n += h->open; return n; }
void runInfer(ExecutionSession &s, int lib, Rng &r, const char *who) {
  int n = 1 + r.below(3); std::vector<OMTensorUniquePtr> in; std::vector<std::vector<int64_t>> data(n);
  for (int i = 0; i < n; i++) { int64_t sh[2] = {(int64_t)(1 + r.below(3)), (int64_t)(1 + r.below(4))}; data[i].resize(sh[0] * sh[1]); for (auto &v : data[i]) v = (int64_t)r.below(1000) - 500; in.emplace_back(omTensorCreate(data[i].data(), sh, 2, ONNX_TYPE_INT64), omTensorDestroy); }
  auto keep = data; std::vector<OMTensorUniquePtr> out; bool threw = false; std::string what;
  unsigned style = r.below(3); // the interface for C++, or one of those for lists
  if (style == 0) { sim::Sut x; try { out = s.run(std::move(in)); } catch (const std::exception &e) { threw = true; what = e.what(); } }
  else {
    std::vector<OMTensor *> raw; for (auto &t : in) raw.push_back(t.get());
    OMTensorList *li = omTensorListCreate(raw.data(), n), *lo = nullptr;
    { sim::Sut x; try { lo = style == 1 ? s.run(li) : s.runDebug(li, false); } catch (const std::exception &e) { threw = true; what = e.what(); } }
    omTensorListDestroyShallow(li);
    if (lo) { for (int64_t i = 0; i < omTensorListGetSize(lo); i++) out.emplace_back(omTensorListGetOmtByIndex(lo, i), omTensorDestroy); omTensorListDestroyShallow(lo); }
  }
  if (threw) fail("interference", "%s: inference of model %d raised: %s", who, lib, what.c_str());
  if ((int)out.size() != n) fail("interference", "%s: inference of model %d returned %zu results for %d inputs", who, lib, out.size(), n);
  for (int i = 0; i < n; i++) {
    if (data[i] != keep[i]) fail("interference", "%s: inference of model %d changed its input", who, lib);
    int64_t *p = (int64_t *)omTensorGetDataPtr(out[i].get());
    if (omTensorGetNumElems(out[i].get()) != (int64_t)data[i].size()) fail("interference", "%s: inference of model %d returned a result of wrong size", who, lib);
    for (size_t k = 0; k < data[i].size(); k++) { int64_t want = data[i][k] * 3 + lib + (L[lib].usesConst ? constByte(lib, k % L[lib].constSize) : 0); if (p[k] != want) fail("interference", "%s: inference of model %d returned %lld instead of %lld", who, lib, (long long)p[k], (long long)want); }
  }
}
// ================================================================= P24
void runP24() {
  sim::Env env; sim::faultKinds({"dlopen-fails", "dlsym-fails"}); sim::ledgerStart();
  makeLibs(true, true);
  bool user = sim::chance(1, 4); std::string userDir = sim::scratch() + "/four"; // a directory with constants of model 3
  if (user) { setenv("OM_CONSTANT_PATH", userDir.c_str(), 1); for (int i = 0; i < NLIB; i++) if (i != 3) L[i].usesConst = false; } else unsetenv("OM_CONSTANT_PATH");
  std::string base = envSnap();
  int n = 2 + sim::choose(3); bool anyFault = false;
  sim::schedStart();
  for (int t = 0; t < n; t++) {
    int k = 1 + sim::choose(3); std::vector<int> libs; for (int i = 0; i < k; i++) libs.push_back(sim::choose(NLIB)); uint64_t seed = sim::choose(1 << 20);
    std::string nm = "user" + std::to_string(t);
    sim::taskSpawn(nm.c_str(), [=, &anyFault] {
      Rng r{seed};
      for (int lib : libs) {
        std::string tag = L[lib].tagged ? "" : "NONE"; std::unique_ptr<ExecutionSession> s; bool failed = false; std::string what; unsigned f0 = sim::faultsFired();
        sim::op("%s opens model %d", nm.c_str(), lib);
        { sim::Sut x; try { s.reset(new ExecutionSession(L[lib].path, tag, true)); } catch (const ExecutionSessionException &e) { failed = true; what = e.what(); } }
        bool fired = sim::faultsFired() != f0; // possibly in another thread: then either outcome is possible
        bool mustFail = !L[lib].exists || requiredMissing(lib) || (!L[lib].sym[S_RUN]);
        if (failed && !mustFail && !fired) fail("interference", "opening model %d failed in thread %s: %s", lib, nm.c_str(), what.c_str());
        if (!failed && mustFail) fail("error-swallowed", "opening model %d succeeded although a part of it is missing", lib);
        { size_t q; while ((q = what.find(sim::scratch())) != std::string::npos) what.replace(q, sim::scratch().size(), "$"); } sim::ev("%s: %s", nm.c_str(), failed ? what.c_str() : "open");
        if (failed) { sim::probe("failed load"); continue; }
        // where its constants were looked for
        if (user) { if (L[lib].seenEnv != 2 || L[lib].envSeen != userDir) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s instead of the user's", lib, L[lib].seenEnv == 2 ? L[lib].envSeen.c_str() : "<unset>"); }
        else if (L[lib].hasDir) { if (L[lib].seenEnv != 2 || L[lib].envSeen != L[lib].dir) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s instead of %s", lib, L[lib].seenEnv == 2 ? L[lib].envSeen.c_str() : "<unset>", L[lib].dir.c_str()); }
        else if (L[lib].seenEnv == 2) fail("wrong-constant-dir", "the constructor of model %d saw constant path %s, none was expected", lib, L[lib].envSeen.c_str());
        int m = sim::choose(3);
        for (int i = 0; i < m; i++) {
          std::string a, b, c; { sim::Sut x; a = s->inputSignature(); b = s->outputSignature(); int64_t qn = 0; auto q = (const char *const *)s->queryEntryPoints(&qn); c = q ? q[0] : ""; }
          if (a != "in#" + std::to_string(lib) || b != "out#" + std::to_string(lib)) fail("interference", "a session of model %d answers with signatures %s and %s", lib, a.c_str(), b.c_str());
          if (c.rfind("run_main_graph", 0) != 0) fail("interference", "a session of model %d answers with entry point %s", lib, c.c_str());
          runInfer(*s, lib, r, nm.c_str());
        }
        sim::op("%s closes model %d", nm.c_str(), lib);
        { sim::Sut x; s.reset(); }
      }
    });
  }
  sim::schedFinish(); note(); (void)anyFault;
  if (openHandles()) fail("handle-leak", "%d libraries are still open although every session ended", openHandles());
  if (envSnap() != base) { const char *v = getenv("OM_CONSTANT_PATH"); fail("env-changed", "after all sessions ended OM_CONSTANT_PATH is %s", v ? v : "unset"); }
  sim::state("n" + std::to_string(n) + "u" + std::to_string(user) + "f" + std::to_string(sim::faultsFired()));
}

// ================================================================= P22
struct Ctx { Rng r; std::vector<uint64_t> h; ExecutionSession *shared; int lib; std::string dir; void **constSlot; int id; };
uint64_t H(const void *p, size_t n, uint64_t h) { return sim::hashBytes(p, n, h); }
uint64_t tensorHash(OMTensor *t) {
  if (!t) return 77; uint64_t h = 1; int64_t rk = omTensorGetRank(t); h = H(omTensorGetShape(t), 8 * rk, h); h = H(omTensorGetStrides(t), 8 * rk, h);
  int dt = omTensorGetDataType(t); h = H(&dt, sizeof dt, h); int64_t n = omTensorGetBufferSize(t); h = H(&n, 8, h); return H(omTensorGetDataPtr(t), n, h);
}
OMTensor *mk(Ctx &c, OM_DATA_TYPE dt, std::vector<int64_t> sh, int vals) {
  OMTensor *t; { sim::Sut s; t = omTensorCreateEmpty(sh.data(), sh.size(), dt); }
  if (!t) fail("create-failed", "no tensor"); int64_t n = omTensorGetNumElems(t); void *p = omTensorGetDataPtr(t);
  for (int64_t i = 0; i < n; i++) { int v = (int)c.r.below(vals); switch (dt) {
    case ONNX_TYPE_FLOAT: ((float *)p)[i] = v * 0.5f - vals / 4; break; case ONNX_TYPE_DOUBLE: ((double *)p)[i] = v * 0.5 - vals / 4; break;
    case ONNX_TYPE_INT64: ((int64_t *)p)[i] = v - vals / 2; break; case ONNX_TYPE_INT32: ((int32_t *)p)[i] = v - vals / 2; break;
    case ONNX_TYPE_UINT8: ((uint8_t *)p)[i] = v; break; case ONNX_TYPE_INT16: ((int16_t *)p)[i] = v - vals / 2; break; case ONNX_TYPE_BOOL: ((uint8_t *)p)[i] = v & 1; break;
    case ONNX_TYPE_FLOAT16: ((uint16_t *)p)[i] = om_f32_to_f16(v * 0.5f - vals / 4); break; default: fail("harness", "type"); } }
  return t;
}
void rm(OMTensor *t) { sim::Sut s; omTensorDestroy(t); }
OM_DATA_TYPE anyType(Ctx &c) { static const OM_DATA_TYPE t[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE, ONNX_TYPE_INT64, ONNX_TYPE_INT32, ONNX_TYPE_UINT8, ONNX_TYPE_INT16, ONNX_TYPE_BOOL, ONNX_TYPE_FLOAT16}; return t[c.r.below(8)]; }
std::vector<int64_t> anyShape(Ctx &c, int maxRank, int maxDim) { int rk = 1 + c.r.below(maxRank); std::vector<int64_t> s; for (int i = 0; i < rk; i++) s.push_back(1 + c.r.below(maxDim)); return s; }
int elemSize(OM_DATA_TYPE t) { return (int)getDataTypeSize(t); }
OMTensor *orderLike(const std::vector<int64_t> &sh) {
  OMTensor *o; { sim::Sut s; o = omTensorCreateEmpty((int64_t *)sh.data(), sh.size(), ONNX_TYPE_INT64); }
  int64_t *p = (int64_t *)omTensorGetDataPtr(o), n = omTensorGetNumElems(o), last = sh.back(); for (int64_t i = 0; i < n; i++) p[i] = i % last; return o;
}
const char *opNames[] = {"tensor life", "tensor list", "sort", "top-k", "unique", "unique count", "resize by scales", "resize by size", "index lookup", "inference", "signatures", "custom sort", "external constant", "small floats", "helpers"};
const int NOPS = 15;
uint64_t oneOp(Ctx &c, int k) {
  uint64_t h = 1469598103934665603ull;
  switch (k) {
  case 0: {
    auto sh = anyShape(c, 4, 4); OMTensor *t = mk(c, anyType(c), sh, 50); h = H("x", 1, tensorHash(t));
    std::vector<int64_t> st(sh.size()); for (auto &v : st) v = c.r.below(5); std::vector<int64_t> s2 = sh; std::reverse(s2.begin(), s2.end());
    { sim::Sut s; omTensorSetShape(t, s2.data()); omTensorSetStrides(t, st.data()); }
    h = H(omTensorGetShape(t), 8 * sh.size(), h); h = H(omTensorGetStrides(t), 8 * sh.size(), h); int64_t own; { sim::Sut s; own = omTensorGetOwning(t); } h = H(&own, 8, h);
    void *buf = malloc(omTensorGetBufferSize(t)); memset(buf, 7, omTensorGetBufferSize(t)); OMTensor *u; { sim::Sut s; u = omTensorCreateWithOwnership(buf, s2.data(), s2.size(), omTensorGetDataType(t), 1); } h ^= tensorHash(u); rm(t); rm(u);
  } break;
  case 1: {
    int n = c.r.below(4); std::vector<OMTensor *> a; for (int i = 0; i < n; i++) a.push_back(mk(c, anyType(c), anyShape(c, 3, 3), 9));
    OMTensorList *l; { sim::Sut s; l = omTensorListCreate(a.data(), n); } int64_t m; { sim::Sut s; m = omTensorListGetSize(l); } h = H(&m, 8, h);
    for (int i = 0; i < n; i++) { OMTensor *t; { sim::Sut s; t = omTensorListGetOmtByIndex(l, i); } h = h * 3 + tensorHash(t); }
    if (c.r.below(3)) { sim::Sut s; omTensorListDestroy(l); } else { { sim::Sut s; omTensorListDestroyShallow(l); } for (auto *t : a) rm(t); }
  } break;
  case 2: case 3: {
    std::vector<int64_t> sh = anyShape(c, 2, 3); sh.push_back(1 + c.r.below(12)); OMTensor *x = mk(c, anyType(c), sh, 6), *o = orderLike(sh); int asc = c.r.below(2);
    if (k == 2) { sim::Sut s; omTensorSort(o, x, sh.size() - 1, asc); h = 0; }
    else { uint64_t kk = 1 + c.r.below(sh.back()); int sorted = c.r.below(2); sim::Sut s; omTensorTopK(o, x, sh.size() - 1, asc, kk, sorted); }
    h ^= tensorHash(o); rm(x); rm(o);
  } break;
  case 4: case 5: {
    std::vector<int64_t> sh = anyShape(c, 3, 4); static const OM_DATA_TYPE ty[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_INT64, ONNX_TYPE_INT32, ONNX_TYPE_UINT8}; OM_DATA_TYPE dt = ty[c.r.below(4)]; OMTensor *x = mk(c, dt, sh, 3);
    int64_t axis = (int64_t)c.r.below(sh.size() + 1) - 1, n = omTensorGetNumElems(x); int sorted = c.r.below(2); OMTensor *tot = mk(c, ONNX_TYPE_INT64, {1}, 2);
    if (k == 5) { sim::Sut s; omTensorUniqueCount(tot, x, axis, sorted); h = tensorHash(tot); }
    else {
      // as the compiler uses it: count first, then the outputs of exactly that size
      { sim::Sut s; omTensorUniqueCount(tot, x, axis, sorted); } int64_t cnt = *(int64_t *)omTensorGetDataPtr(tot), slices = axis < 0 ? n : sh[axis];
      std::vector<int64_t> ys = axis < 0 ? std::vector<int64_t>{slices} : sh; OMTensor *Y = mk(c, dt, ys, 1); std::vector<int64_t> cs{cnt}, ss{slices};
      // working buffers have room for every slice; the indices tensor names the final count
      int64_t *ib = (int64_t *)calloc(slices, 8), *cb = (int64_t *)calloc(slices, 8), *nb = (int64_t *)calloc(slices, 8);
      OMTensor *I = omTensorCreate(ib, cs.data(), 1, ONNX_TYPE_INT64), *C = omTensorCreate(cb, cs.data(), 1, ONNX_TYPE_INT64), *N = omTensorCreate(nb, ss.data(), 1, ONNX_TYPE_INT64);
      { sim::Sut s; omTensorUnique(tot, Y, I, N, C, x, axis, sorted); }
      h = tensorHash(tot) * 31; int64_t per = axis < 0 ? 1 : n / slices; h ^= H(omTensorGetDataPtr(Y), cnt * per * elemSize(dt), 5); h ^= H(ib, cnt * 8, 3) * 7; h ^= H(nb, slices * 8, 3) * 11; h ^= H(cb, cnt * 8, 3) * 13;
      for (auto *t : {Y, I, C, N}) rm(t); free(ib); free(cb); free(nb);
    }
    rm(x); rm(tot);
  } break;
  case 6: case 7: {
    std::vector<int64_t> sh = {1, 1 + (int64_t)c.r.below(2), 1 + (int64_t)c.r.below(2), 1 + (int64_t)c.r.below(3)}; OMTensor *x = mk(c, ONNX_TYPE_FLOAT, sh, 20); std::vector<int64_t> os(4); OMTensor *p;
    static const char *modes[] = {"nearest", "linear", "cubic"}; const char *m = modes[c.r.below(3)];
    if (k == 6) { p = mk(c, ONNX_TYPE_FLOAT, {4}, 2); float *f = (float *)omTensorGetDataPtr(p); for (int i = 0; i < 4; i++) { f[i] = i < 2 ? 1 : 1 + 0.5f * c.r.below(3); os[i] = f[i] * sh[i]; } }
    else { p = mk(c, ONNX_TYPE_INT64, {4}, 2); int64_t *f = (int64_t *)omTensorGetDataPtr(p); for (int i = 0; i < 4; i++) os[i] = f[i] = i < 2 ? sh[i] : sh[i] + c.r.below(3); }
    OMTensor *y = mk(c, ONNX_TYPE_FLOAT, os, 1);
    { sim::Sut s; if (k == 6) Resize_Scales(y, x, p, (char *)m, (char *)"floor"); else Resize_Size(y, x, p, (char *)m, (char *)"floor"); }
    h = tensorHash(y); rm(x); rm(p); rm(y);
  } break;
  case 8: { static const int32_t G[] = {3, -2, 5, 1, -1, 2, 4}, V[] = {0, 1, 2, 3, 4, 5, 6}; char key[32]; for (int i = 0; i < 4; i++) { uint64_t a, b; int64_t v = (int64_t)c.r.next() >> c.r.below(60); snprintf(key, sizeof key, "k%llu", (unsigned long long)c.r.below(10000)); { sim::Sut s; a = find_index_str(key, G, V, 7); b = find_index_i64(v, G, V, 7); } h = H(&a, 8, h); h = H(&b, 8, h); } } break;
  case 9: runInfer(*c.shared, c.lib, c.r, "shared session"); break;
  case 10: { std::string a; { sim::Sut s; a = c.shared->inputSignature() + c.shared->outputSignature() + c.shared->compilationInfo(); } h = H(a.data(), a.size(), h); } break;
  case 11: { int n = 1 + c.r.below(20); std::vector<float> d(n); std::vector<uint64_t> ix(n); for (int i = 0; i < n; i++) { d[i] = c.r.below(7); ix[i] = i; } { sim::Sut s; quick_sort_custom(ix.data(), n, 8, getCompareFunction(1, ONNX_TYPE_FLOAT), d.data()); } h = H(ix.data(), 8 * n, h); } break;
  case 12: { // its own view of a constants file that others load as well
    void *own = nullptr, *sub = nullptr; int f = c.r.below(3); bool shared = f == 0; char nm[32]; snprintf(nm, sizeof nm, "c%d.bin", f); void **slot = shared ? c.constSlot : &own; bool ok; { sim::Sut s; ok = omLoadConstantData(slot, nm, 200 + 50 * f, 1); }
    int64_t off = c.r.below(100); void *seen = *slot; if (!ok || !seen) { h = 9; break; } { sim::Sut s; omGetExternalConstantAddr(&sub, slot, off); }
    h = H(seen, 200 + 50 * f, h); h = H(sub, 100, h); if (!shared) { sim::Sut s; omUnloadConstantData(&own, 200 + 50 * f); }
  } break;
  case 13: for (int i = 0; i < 5; i++) { float v = (int)c.r.below(2000) * 0.37f - 300; float b; { sim::Sut s; b = om_f16_to_f32(om_f32_to_f16(v)); } h = H(&b, 4, h); } break;
  case 14: { auto sh = anyShape(c, 3, 3); OMTensor *x = mk(c, ONNX_TYPE_FLOAT, sh, 20), *y = mk(c, ONNX_TYPE_FLOAT, sh, 20); std::vector<int64_t> ix(sh.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = c.r.below(sh[i]); int64_t a, n; float v; { sim::Sut s; a = omTensorGetNumElems(x); v = omTensorGetElem<float>(x, ix); n = omTensorGetBufferSize(y); } h = H(&a, 8, h); h = H(&v, 4, h); h = H(&n, 8, h); rm(x); rm(y); } break;
  }
  return h;
}
void runP22() {
  sim::Env env; sim::allocFaults(false, false); sim::ledgerStart();
  makeLibs(false, true); L[0].usesConst = L[1].usesConst = false; L[3].usesConst = false;
  for (int f = 0; f < 3; f++) { std::string p = sim::scratch() + "/c" + std::to_string(f) + ".bin"; FILE *o = fopen(p.c_str(), "w"); for (int k = 0; k < 200 + 50 * f; k++) fputc((k * (f + 3)) & 0xff, o); fclose(o); }
  setenv("OM_CONSTANT_PATH", sim::scratch().c_str(), 1);
  int lib = sim::choose(NLIB); ExecutionSession S(L[lib].path, L[lib].tagged ? "" : "NONE", true);
  int n = 2 + sim::choose(3); std::vector<std::vector<int>> plan(n); std::vector<uint64_t> seed(n); void *slot = nullptr;
  bool same = sim::chance(1, 3); int only = sim::choose(NOPS); // many threads in the same function
  for (int t = 0; t < n; t++) { int k = 1 + sim::choose(5); for (int i = 0; i < k; i++) plan[t].push_back(same ? only : sim::choose(NOPS)); seed[t] = sim::choose(1 << 20); }
  std::vector<std::vector<uint64_t>> solo(n); std::vector<void *> soloSlots;
  size_t live0 = sim::ledgerLive(7);
  for (int t = 0; t < n; t++) { void *s2 = nullptr; Ctx c{{seed[t]}, {}, &S, lib, "", &s2, t}; for (int k : plan[t]) { solo[t].push_back(oneOp(c, k)); } if (s2) omUnloadConstantData(&s2, 200); }
  size_t live1 = sim::ledgerLive(7); size_t soloVec = 0; for (auto &v : solo) soloVec += v.capacity() ? 1 : 0;
  if (live1 != live0 + soloVec) fail("leak", "%zd blocks are live after each thread's calls ran alone", (ssize_t)(live1 - live0 - soloVec));
  std::vector<std::vector<uint64_t>> got(n);
  sim::schedStart();
  for (int t = 0; t < n; t++) {
    std::string nm = "thread" + std::to_string(t);
    sim::taskSpawn(nm.c_str(), [&, t] { Ctx c{{seed[t]}, {}, &S, lib, "", &slot, t}; for (size_t i = 0; i < plan[t].size(); i++) { sim::op("thread%d: %s", t, opNames[plan[t][i]]); uint64_t h = oneOp(c, plan[t][i]); if (h != solo[t][i]) fail("interference", "thread %d: %s gave a result that it does not give alone", t, opNames[plan[t][i]]); sim::probe(opNames[plan[t][i]]); } });
  }
  sim::schedFinish(); note();
  std::string st = "n" + std::to_string(n); for (auto &p : plan) st += "," + std::to_string(p[0]); sim::state(st);
}
void run() {
  const std::string &p = sim::prop();
  if (p == "P16") runP16(); else if (p == "P18") runP18(); else if (p == "P22") runP22(); else if (p == "P24") runP24();
}
} // namespace
int main(int argc, char **argv) {
  sim::Options o; o.needScratch = true;
  return sim::simMain(argc, argv, o, [] { setenv("TZ", "America/New_York", 1); tzset(); }, run);
}
