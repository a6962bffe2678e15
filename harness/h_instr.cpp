// P05: the performance report. Real: OMInstrument.c, stdio on scratch files.
// Stub: clock, memory query (popen), report file opening failures.
#include "simkit.h"
#include "onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <map>
using sim::fail;
using namespace onnx_mlir;
extern "C" {
void OMInstrumentPointInit(int64_t, const char *);
void OMInstrumentPoint(const char *, int64_t, const char *);
void omInstrumentPrint();
FILE *__real_fopen(const char *, const char *); FILE *__real_popen(const char *, const char *); int __real_pclose(FILE *);
int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);
}
namespace {
int64_t clockUs; // simulated wall clock
FILE *fakePipe; std::string pipeText; int queries; char queryKind; // of the last query
std::string stdoutFile;
int openFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
std::string slurp(const std::string &f) { std::string s; FILE *h = __real_fopen(f.c_str(), "r"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
bool openFailed;
} // namespace
extern "C" {
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  if (!sim::active() || !sim::inSut()) return __real_gettimeofday(tv, tz);
  tv->tv_sec = clockUs / 1000000; tv->tv_usec = clockUs % 1000000; return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sim::active() || !sim::inSut()) return __real_clock_gettime(c, ts);
  ts->tv_sec = clockUs / 1000000; ts->tv_nsec = clockUs % 1000000 * 1000; return 0;
}
FILE *__wrap_fopen(const char *p, const char *m) {
  if (sim::active() && sim::inSut()) {
    bool f = sim::fault("open-report-file-fails");
    if (f) { openFailed = true; errno = EACCES; return nullptr; }
    sim::Env e; FILE *h = __real_fopen(p, m); if (!h) openFailed = true; return h;
  }
  return __real_fopen(p, m);
}
FILE *__wrap_popen(const char *cmd, const char *m) {
  if (!sim::active()) return __real_popen(cmd, m);
  queries++;
  if (sim::fault("memory-query-cannot-start")) { queryKind = 'f'; errno = ENOMEM; return nullptr; }
  char b[64]; snprintf(b, sizeof b, "  %d\n", 100000 + queries); pipeText = b; queryKind = 'n';
  if (sim::fault("memory-query-empty")) { pipeText = ""; queryKind = 'e'; }
  else if (sim::fault("memory-query-garbage")) { pipeText = std::string(450, 'x') + "\nyy\n"; queryKind = 'g'; }
  sim::Env e;
  if (pipeText.empty()) fakePipe = __real_fopen("/dev/null", "r"); else fakePipe = fmemopen((void *)pipeText.data(), pipeText.size(), "r");
  return fakePipe;
}
int __wrap_pclose(FILE *f) { if (!sim::active()) return __real_pclose(f); sim::Env e; if (f != fakePipe) fail("bad-pclose", "pclose of another stream"); fclose(f); fakePipe = nullptr; return 0; }
}
namespace {
struct Op { std::string opBuf, nodeBuf; size_t ol, nl; };
std::vector<Op> ops;
struct Ev { int op; bool after; bool time, mem; int64_t dt; };
// a run's events: a random nesting tree, possibly repeated many times
void genBlock(std::vector<Ev> &out, int depth, int &budget) {
  int n = 1 + sim::choose(3);
  for (int i = 0; i < n && budget > 0; i++) {
    budget--; int o = sim::choose(ops.size()); int what = sim::choose(8); bool t = what != 6, m = what >= 6; int ends = sim::choose(8); // 0..5 both, 6 before only, 7 after only
    int64_t d1 = sim::choose(4) == 3 ? (int64_t)sim::choose(5000000) - 1000000 : sim::choose(2000), d2 = sim::choose(2000);
    if (ends != 7) out.push_back({o, false, t, m, d1});
    if (depth < 3 && sim::chance(1, 3)) genBlock(out, depth + 1, budget);
    if (ends != 6) out.push_back({o, true, t, m, d2});
  }
}
std::string line(const char *kind, const Op &o, bool after) { return std::string("==") + kind + "-REPORT==, " + o.opBuf.substr(0, o.ol) + ", " + o.nodeBuf.substr(0, o.nl) + ", " + (after ? "after" : "before"); }
std::string tstr(int64_t d) { // as timersub and %ld.%06ld show it
  int64_t s = d / 1000000, u = d % 1000000; if (u < 0) { u += 1000000; s--; }
  char b[64]; snprintf(b, sizeof b, "%ld.%06ld", (long)s, (long)u); return b;
}
// Expected output of one destination: sequence of runs
struct RunExp { std::vector<std::string> timeLines, memLines; std::vector<int> memOptional; std::string info; bool hasInfo; bool complete; bool disabled; size_t memNeeded; };
std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
struct Bad { std::string cls, text; };
std::string fmt(const char *f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
// One report (the lines after its start line) against one run.
bool matchOne(const std::vector<std::string> &L, size_t p, size_t end, RunExp &x, size_t r, const char *where, Bad &bad) {
  auto no = [&](const char *c, std::string t) { bad = {c, fmt("run %zu in %s: ", r, where) + t}; return false; };
  if (x.hasInfo) { if (p >= end || L[p] != "==COMPILE-INFO-REPORT==, " + x.info) return no("report-info", "compilation info missing"); p++; }
  size_t ti = 0, mi = 0;
  for (; p < end; p++) {
    if (L[p].rfind("==PERF-REPORT==", 0) == 0) {
      if (ti >= x.timeLines.size()) return no("report-extra-line", fmt("%zu time events happened, line %zu is extra: %.160s", x.timeLines.size(), ti + 1, L[p].c_str()));
      if (L[p] != x.timeLines[ti]) return no("report-wrong-line", fmt("time event %zu of %zu should read '%.160s' but the report has '%.160s'", ti, x.timeLines.size(), x.timeLines[ti].c_str(), L[p].c_str()));
      ti++;
    } else if (L[p].rfind("==MEM-REPORT==", 0) == 0) {
      if (mi >= x.memLines.size()) return no("report-extra-line", fmt("extra memory line %.160s", L[p].c_str()));
      const std::string &w = x.memLines[mi]; std::string got = L[p], want = w.substr(1);
      if (w[0] == 'n') { // number: spacing free
        size_t c = got.rfind(','); std::string v = c == std::string::npos ? "" : got.substr(c + 1); size_t a = v.find_first_not_of(" "); v = a == std::string::npos ? "" : v.substr(a);
        std::string g = got.substr(0, c == std::string::npos ? got.size() : c) + ", " + v;
        if (g != want) return no("report-wrong-line", fmt("memory event %zu should read '%.160s' but the report has '%.160s'", mi, want.c_str(), got.c_str()));
      } else if (got.rfind(want, 0) != 0 || got.find("error", want.size()) == std::string::npos)
        return no("report-wrong-line", fmt("memory event %zu, whose query failed, should start '%.160s' and carry an error, but the report has '%.200s'", mi, want.c_str(), got.c_str()));
      mi++;
    } else return no(L[p].rfind("==COMPILE-INFO", 0) == 0 ? "report-info" : "report-foreign-line", fmt("line '%.160s' does not belong to the report", L[p].c_str()));
  }
  if (x.complete && ti != x.timeLines.size()) return no("report-missing-line", fmt("%zu of %zu time events are missing, first: %.160s", x.timeLines.size() - ti, x.timeLines.size(), x.timeLines[ti].c_str()));
  if (x.complete && mi < x.memNeeded) return no("report-missing-line", fmt("%zu of %zu memory events are missing, first: %.160s", x.memNeeded - mi, x.memNeeded, x.memLines[mi].c_str()));
  return true;
}
bool match(const std::vector<std::string> &L, const std::vector<size_t> &starts, size_t s, std::vector<RunExp> &runs, size_t r, const char *where, Bad &bad) {
  if (r == runs.size()) { if (s == starts.size()) return true; bad = {"report-foreign-line", fmt("%s holds more reports than runs", where)}; return false; }
  bool mayBeAbsent = !runs[r].complete || (runs[r].timeLines.empty() && runs[r].memLines.empty());
  Bad mine, deeper;
  if (s < starts.size()) {
    if (matchOne(L, starts[s] + 1, s + 1 < starts.size() ? starts[s + 1] : L.size(), runs[r], r, where, mine)) { if (match(L, starts, s + 1, runs, r + 1, where, deeper)) return true; mine = deeper; }
  } else mine = {"report-start", fmt("run %zu in %s: no report although %zu time and %zu memory events happened", r, where, runs[r].timeLines.size(), runs[r].memLines.size())};
  if (mayBeAbsent) { if (match(L, starts, s, runs, r + 1, where, deeper)) return true; mine = deeper; }
  bad = mine; return false;
}
void checkReport(const std::string &text, std::vector<RunExp> &runs, const char *where) {
  std::vector<std::string> L = split(text); std::vector<size_t> starts;
  for (size_t i = 0; i < L.size(); i++) if (L[i] == "==START-REPORT==") starts.push_back(i);
  if (!L.empty() && (starts.empty() || starts[0] != 0)) fail("report-start", "%s begins with '%.160s' instead of the start of a report", where, L[0].c_str());
  Bad bad; if (!match(L, starts, 0, runs, 0, where, bad)) fail(bad.cls.c_str(), "%s", bad.text.c_str());
}
void run() {
  sim::Env env;
  sim::faultKinds({"open-report-file-fails", "memory-query-cannot-start", "memory-query-empty", "memory-query-garbage"}); sim::allocFaults(false, false);
  std::string dir = sim::scratch();
  stdoutFile = dir + "/stdout"; fflush(stdout); int fd = open(stdoutFile.c_str(), O_RDWR | O_CREAT | O_APPEND, 0600); dup2(fd, 1); close(fd);
  for (const char *v : {"ONNX_MLIR_INSTRUMENT_FILE", "ONNX_MLIR_NO_INSTRUMENT_TIME", "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "ONNX_MLIR_NO_INSTRUMENT"}) unsetenv(v);
  clockUs = 1000000000000000ll + sim::choose(1000000);
  int nops = 1 + sim::choose(5);
  for (int i = 0; i < nops; i++) {
    Op o; o.ol = sim::chance(1, 6) ? 63 : 1 + sim::choose(10); o.nl = sim::chance(1, 6) ? 511 : sim::choose(12);
    o.opBuf = std::string("onnx.Operator") + std::to_string(i) + std::string(64, 'A' + i); o.nodeBuf = std::string("node") + std::to_string(i) + std::string(520, 'a' + i);
    if (i > 0 && sim::chance(1, 4)) { o.ol = ops[0].ol; o.opBuf = ops[0].opBuf; }
    ops.push_back(o);
  }
  int baseFds = -1;
  std::map<std::string, std::vector<RunExp>> dest; // path or "" = stdout
  bool reportOpen = false; std::string where; bool noT = false, noM = false, off = false; int psErr = 0;
  int nrun = 1 + sim::choose(5); bool big = sim::chance(1, 12), newProto = sim::chance(1, 2);
  auto setenv01 = [&](const char *n, bool on) { if (on) setenv(n, "1", 1); else unsetenv(n); };
  for (int r = 0; r < nrun; r++) {
    if (sim::chance(1, 2)) { // the user changes the configuration
      int f = sim::choose(4);
      std::string path = dir + (f == 3 ? "/nodir/report" : "/report" + std::to_string(f));
      if (f == 0) unsetenv("ONNX_MLIR_INSTRUMENT_FILE"); else setenv("ONNX_MLIR_INSTRUMENT_FILE", path.c_str(), 1);
      setenv01("ONNX_MLIR_NO_INSTRUMENT_TIME", sim::chance(1, 8)); setenv01("ONNX_MLIR_NO_INSTRUMENT_MEMORY", sim::chance(1, 8)); setenv01("ONNX_MLIR_NO_INSTRUMENT", sim::chance(1, 10));
      sim::op("configure file %d%s%s%s", f, getenv("ONNX_MLIR_NO_INSTRUMENT_TIME") ? " no-time" : "", getenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY") ? " no-memory" : "", getenv("ONNX_MLIR_NO_INSTRUMENT") ? " off" : "");
    }
    std::vector<Ev> block; int budget = 14; genBlock(block, 0, budget);
    int rep = 1;
    if (big) { rep = (8192 * (1 + (int)sim::choose(2)) + (int)sim::choose(5)) / (int)block.size() + sim::choose(3); for (auto &e : block) e.mem = false; }
    else if (sim::chance(1, 4)) rep = 1 + sim::choose(6);
    if (big && sim::chance(1, 2)) { // exactly around the buffer capacity
      int pad = sim::choose(6); for (int k = 0; k < pad; k++) block.push_back({0, (bool)(k & 1), true, false, 1});
    }
    std::string info = "{\"op\":" + std::to_string(r) + "}"; static std::string infos[8]; infos[r] = info;
    openFailed = false;
    sim::op("run %d: %zu events x %d, %s protocol", r, block.size(), rep, newProto ? "new" : "old");
    RunExp x; x.hasInfo = newProto; x.info = info; x.complete = false; x.memNeeded = 0;
    int64_t tInit, tPrev; bool first = true;
    auto startReport = [&] { if (!reportOpen) {
        off = getenv("ONNX_MLIR_NO_INSTRUMENT"); noT = off || getenv("ONNX_MLIR_NO_INSTRUMENT_TIME"); noM = off || getenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY"); psErr = 0; const char *f = getenv("ONNX_MLIR_INSTRUMENT_FILE"); where = f ? f : ""; } };
    startReport();
    if (newProto) { sim::Sut s; OMInstrumentPointInit(0, infos[r].c_str()); }
    tInit = tPrev = clockUs;
    bool dead = false;
    for (int k = 0; k < rep; k++) for (auto &e : block) {
      clockUs += e.dt; if (e.dt < 0) sim::countFault("clock-backwards"); sim::advance(e.dt > 0 ? e.dt * 1000 : 0);
      const Op &o = ops[e.op]; uint64_t tag = 0; SET_INSTRUMENT_OP_NAME_LEN(tag, o.ol); SET_INSTRUMENT_NODE_NAME_LEN(tag, o.nl);
      if (e.after) SET_INSTRUMENT_AFTER_OP(tag); else SET_INSTRUMENT_BEFORE_OP(tag);
      if (e.time) SET_INSTRUMENT_REPORT_TIME(tag);
      if (e.mem) SET_INSTRUMENT_REPORT_MEMORY(tag);
      if (first && !newProto) { SET_INSTRUMENT_INIT(tag); tInit = tPrev = clockUs; }
      first = false;
      int q0 = queries;
      { sim::Sut s; OMInstrumentPoint(o.opBuf.c_str(), tag, o.nodeBuf.c_str()); }
      if (e.time && !noT) { x.timeLines.push_back(line("PERF", o, e.after) + ", " + tstr(clockUs - tPrev) + ", " + tstr(clockUs - tInit)); tPrev = clockUs; }
      if (e.mem && !noM) {
        if (queries != q0) {
          if (queryKind == 'n') x.memLines.push_back("n" + line("MEM", o, e.after) + ", " + std::to_string(100000 + queries)); else { x.memLines.push_back("e" + line("MEM", o, e.after)); psErr++; }
          if (psErr < 20) x.memNeeded = x.memLines.size();
        } else if (psErr < 20) fail("report-missing-line", "a memory event made no memory query although fewer than 20 had failed");
      }
      (void)dead;
    }
    if (openFailed) where = "";
    if (off) { x.timeLines.clear(); x.memLines.clear(); x.memNeeded = 0; }
    reportOpen = true;
    dest[where].push_back(x); RunExp &mine = dest[where].back();
    if ((int)x.timeLines.size() > 8192) sim::probe("buffer overflowed");
    if (!sim::chance(1, 8)) {
      int times = 1 + sim::choose(2);
      for (int k = 0; k < times; k++) { sim::Sut s; omInstrumentPrint(); }
      sim::op("report requested"); mine.complete = true; reportOpen = false; fflush(stdout);
      int n = openFds();
      if (baseFds < 0) baseFds = n; // after the first complete report
      if (n > baseFds) fail("open-files-grow", "%d files are open after report %d, %d after the first", n, r, baseFds);
      for (auto &d : dest) { std::string t = slurp(d.first.empty() ? stdoutFile : d.first); checkReport(t, d.second, d.first.empty() ? "standard output" : "the report file"); }
      if (dest.find("") == dest.end() && !slurp(stdoutFile).empty()) fail("report-foreign-line", "standard output got report lines although a file is configured");
      sim::ev("  report checked: %zu time, %zu memory lines", x.timeLines.size(), x.memLines.size());
    } else { sim::probe("run without report request"); }
    sim::state(x.timeLines.size() * 64 + x.memLines.size() * 8 + (where.empty() ? 1 : 0) + (noT ? 2 : 0) + (noM ? 4 : 0));
  }
  if (sim::chance(1, 3)) { sim::Sut s; omInstrumentPrint(); }
}
} // namespace
int main(int argc, char **argv) { sim::Options o; o.needScratch = true; return sim::simMain(argc, argv, o, nullptr, run); }
