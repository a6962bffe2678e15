// P08 commands, P09 compile sessions, P10 containers, P23 reuse: real processes
// are forked, but what they "are" (compiler, container engine, any program) is
// simulated; the parent draws each child's plan before it exists.
#include "simkit.h"
#include "src/Compiler/Command.hpp"
#include "src/Compiler/OMCompile.hpp"
#include "PyOMCompile.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#ifdef THREADED
#include "simsched.h"
#define SHARED(w) sim::yieldPoint(w)
#else
#define SHARED(w) (void)0
#endif
namespace fs = std::filesystem;
using namespace onnx_mlir;
using sim::fail;
typedef std::vector<std::string> VS;

// ------------------------------------------------------------ shared records
enum { P_PROGRAM, P_COMPILER, P_ENGINE };
struct Plan {
  int execErr, openFail, dupFail;     // failures inside the child before the program starts
  int exitCode, sig, crashAt;         // the end of the program: at a step, or at its end
  int out, konst, engineFail, early;  // what it writes; engine hiccup; early: runs before the parent waits
};
struct Rec {
  pid_t pid; Plan plan;
  volatile int execd, done, atexitRan, openFired, dupFired, execFired, released;
  char path[1024]; char args[8192]; int nargs, len;
  char cwd[1024]; uint64_t ino[3]; int open[3];
  int exitCode, sig; sem_t gate; int gated; char log[2048]; int loglen;
  int task, reaped; int wroteConst, wroteOut, compilerRan; char cargs[8192]; int ncargs, clen; char image[256], engine[64]; int verb; // engine verb
};
enum { V_NONE, V_VERSION, V_INFO, V_IMAGES, V_INSPECT, V_PULL, V_RUN };
struct World { // facts the simulated programs consult; some change
  int installed[2], versionCode[2], infoCode, imagePresent, pullCode, entrypointIsCompiler;
  int dind, dockerenv, containerenv, sock, cgroup, host; char prefix[512]; int prefixOn; char image[256]; char compilerIn[256];
};
static Rec *R; static World *W; static volatile int *nrecp;
#define nrec (*nrecp)
static const int MAXR = 400;
static int g_child = -1; static pid_t g_parent; static std::string S; static thread_local std::string g_log; // log file of the current call
static bool sigchldIgnored;
static VS unpack(const char *b, int n, int len) { VS v; const char *p = b; for (int i = 0; i < n && p < b + len; i++) { v.push_back(p); p += v.back().size() + 1; } return v; }
static void packArg(char *b, int cap, int &n, int &len, const std::string &s) { if (len + (int)s.size() + 1 < cap) { memcpy(b + len, s.c_str(), s.size() + 1); len += s.size() + 1; n++; } }
static thread_local int t_task = -1; // the simulated thread of P11
static std::string show(const VS &v) { std::string s; for (auto &a : v) s += "[" + a + "]"; return s; }

// ------------------------------------------------------------ syscalls
extern "C" {
pid_t __real_fork(); pid_t __real_waitpid(pid_t, int *, int); int __real_execvp(const char *, char *const[]); int __real_dup2(int, int);
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_gethostname(char *, size_t);
}
static int openFd(int fd) { return fcntl(fd, F_GETFD) >= 0; }
static uint64_t inoOf(int fd) { struct stat st; return syscall(SYS_fstat, fd, &st) ? 0 : (uint64_t)st.st_ino * 1000003 + st.st_dev; }
typedef void (*Drawer)(Plan &); static Drawer g_draw;
static void runProgram(Rec &r);

extern "C" pid_t __wrap_fork() {
  if (!sim::inSut() || g_child >= 0) return __real_fork();
  if (sim::fault("fork-fails")) { errno = EAGAIN; return -1; }
  sim::Env env;
  if (nrec >= MAXR) fail("too-many-commands", "more than %d processes", MAXR);
  int i = nrec++; Rec &r = R[i]; memset((void *)&r, 0, sizeof r); r.plan.crashAt = 1000; r.exitCode = -1;
  g_draw(r.plan); sem_init(&r.gate, 1, 0); r.gated = !r.plan.early;
  r.task = t_task;
  SHARED("fork");
  pid_t pid = __real_fork();
  if (pid == 0) {
#ifdef THREADED
    sim::schedAbandon();
#endif
    g_child = i; sim::armFaults(false);
    while (r.gated && sem_wait(&r.gate) && errno == EINTR) {}
    return 0;
  }
  r.pid = pid;
  { char h[32]; snprintf(h, sizeof h, "fork %d", i); SHARED(h); }
  if (!r.gated) { siginfo_t si; while (waitid(P_PID, pid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) {} }
  return pid;
}
static void release(pid_t pid) { for (int i = 0; i < nrec; i++) if ((pid == -1 || R[i].pid == pid) && R[i].gated && !R[i].released) { R[i].released = 1; sem_post(&R[i].gate); } }
extern "C" pid_t __wrap_waitpid(pid_t pid, int *st, int opt) {
  if (!sim::inSut() || g_child >= 0) return __real_waitpid(pid, st, opt);
  sim::step(4000);
  if (sim::fault("wait-interrupted")) { errno = EINTR; return -1; }
#ifdef THREADED
  if (sim::schedOn()) { sim::Env env; // the program runs for a while
    if (sim::chance(1, 2)) sim::sleepUntil(sim::now() + 1 + sim::choose(1000)); else for (unsigned n = sim::choose(8); n; n--) sim::yieldPoint("a program runs");
    if (pid == -1 || pid == 0) { std::vector<int> c; for (int i = 0; i < nrec; i++) if (R[i].pid > 0 && !R[i].reaped) c.push_back(i); if (c.empty()) { errno = ECHILD; return -1; } pid = R[c[sim::choose(c.size())]].pid; }
    for (int i = 0; i < nrec; i++) if (R[i].pid == pid) R[i].reaped = 1;
  }
#endif
  release(pid);
  for (;;) { pid_t r = __real_waitpid(pid, st, opt); if (r < 0 && errno == EINTR) continue; return r; }
}
static int doExec(const char *path, char *const argv[]) {
  if (g_child < 0) { errno = ENOSYS; return -1; }
  Rec &r = R[g_child]; char buf[1024];
  strncpy(r.path, path, sizeof r.path - 1);
  for (char *const *a = argv; *a; a++) packArg(r.args, sizeof r.args, r.nargs, r.len, *a);
  { std::string b = path; b = b.substr(b.rfind('/') + 1); if ((sim::prop() == "P10" || sim::prop() == "P11") && ((b == "docker" && !W->installed[0]) || (b == "podman" && !W->installed[1]))) { errno = ENOENT; return -1; } }
  if (r.plan.execErr) { r.execFired = 1; errno = r.plan.execErr; return -1; }
  if (getcwd(buf, sizeof buf)) strncpy(r.cwd, buf, sizeof r.cwd - 1);
  for (int f = 0; f < 3; f++) { r.open[f] = openFd(f); r.ino[f] = inoOf(f); }
  r.execd++;
  runProgram(r);
  _exit(99);
}
extern "C" int __wrap_execvp(const char *p, char *const a[]) { return doExec(p, a); }
extern "C" int __wrap_execv(const char *p, char *const a[]) { return doExec(p, a); }
extern "C" int __wrap_execve(const char *p, char *const a[], char *const *) { return doExec(p, a); }
extern "C" int __wrap_execvpe(const char *p, char *const a[], char *const *) { return doExec(p, a); }
static int doOpen(const char *p, int fl, int mode) {
  if (sim::active()) {
    if (g_child >= 0) { Rec &r = R[g_child]; if (r.plan.openFail && g_log == p) { r.openFired = 1; errno = r.plan.openFail; return -1; } }
    else if (sim::inSut() && sim::fault("log-open-fails")) { errno = EACCES; return -1; }
  }
  return __real_open(p, fl, mode);
}
extern "C" int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(p, fl, m); }
extern "C" int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(p, fl, m); }
extern "C" int __wrap_dup2(int a, int b) {
  if (g_child >= 0) { Rec &r = R[g_child]; if (r.plan.dupFail == b) { r.dupFired = 1; errno = EBUSY; return -1; } }
  return __real_dup2(a, b);
}
extern "C" int __wrap_gethostname(char *b, size_t n) { if (!sim::active()) return __real_gethostname(b, n); snprintf(b, n, "%s", W->host == 0 ? "workstation" : W->host == 1 ? "0123456789ab" : "0123456789xy"); return 0; }
// libstdc++ reaches these in the executable first
extern "C" int chdir(const char *p) { SHARED("chdir"); if (g_child < 0 && sim::fault("chdir-fails")) { errno = EACCES; return -1; } int k = syscall(SYS_chdir, p); SHARED("chdir"); return k; }
extern "C" char *getcwd(char *b, size_t n) {
  SHARED("getcwd");
  if (g_child < 0 && sim::fault("getcwd-fails")) { errno = ENOENT; return nullptr; }
  sim::Env e; char t[4096]; long k = syscall(SYS_getcwd, t, sizeof t);
  if (k < 0) return nullptr;
  if (!b) { if (!n) n = k; b = (char *)malloc(n); if (!b) return nullptr; }
  if ((size_t)k > n) { errno = ERANGE; return nullptr; }
  memcpy(b, t, k); return b;
}
extern "C" int stat(const char *p, struct stat *st) {
  if (sim::active() && g_child < 0) {
    if (sim::inSut()) {
      if (sim::fault("stat-fails")) { errno = EIO; return -1; }
      int have = !strcmp(p, "/.dockerenv") ? W->dockerenv : !strcmp(p, "/run/.containerenv") ? W->containerenv : !strcmp(p, "/var/run/docker.sock") ? W->sock : -1;
      if (have == 0) { errno = ENOENT; return -1; }
      if (have == 1) p = "/dev/null";
    }
  }
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
static FILE *openFile(const char *p, const char *m) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (sim::active() && sim::inSut()) {
    if (!strcmp(p, "/proc/1/cgroup")) { static std::string t; t = S + "/cgroup"; return real(t.c_str(), m); }
    if (sim::fault("fopen-fails")) { errno = EMFILE; return nullptr; }
  }
  return real(p, m);
}
extern "C" FILE *fopen(const char *p, const char *m) { return openFile(p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return openFile(p, m); }

// ------------------------------------------------------------ simulated programs (run in the child; never draw)
static void say(Rec &r, int fd, const std::string &s) {
  (void)!write(fd, s.data(), s.size());
  for (char c : s) if (r.loglen < (int)sizeof r.log - 1) r.log[r.loglen++] = c;
}
[[noreturn]] static void finish(Rec &r, int code, int sig) {
  r.exitCode = code; r.sig = sig; r.done = 1;
  if (sig) { signal(sig, SIG_DFL); sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr); kill(getpid(), sig); for (;;) pause(); }
  _exit(code);
}
static void at(Rec &r, int step) { if (step == r.plan.crashAt) finish(r, r.plan.exitCode ? r.plan.exitCode : 14, r.plan.sig); }
static std::string slurp(const std::string &p, bool &ok) {
  std::string s; int fd = __real_open(p.c_str(), O_RDONLY); struct stat st; ok = fd >= 0;
  if (ok && (syscall(SYS_fstat, fd, &st) || !S_ISREG(st.st_mode))) ok = false;
  if (fd < 0) return s;
  char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd); return s;
}
static bool isModel(const std::string &a) { for (const char *e : {".onnx", ".mlir", ".onnxtext"}) { size_t n = strlen(e); if (a.size() >= n && a[0] != '-' && !a.compare(a.size() - n, n, e)) return true; } return false; }
static const char *extOf(const VS &args) {
  for (auto &a : args) { std::string b = a.rfind("--", 0) == 0 ? a.substr(1) : a; if (b == "-EmitLib") return ".so"; if (b == "-EmitJNI") return ".jar"; if (b == "-EmitObj") return ".o"; if (b.rfind("-Emit", 0) == 0) return ".onnx.mlir"; }
  return ".so";
}
static void spill(const std::string &p, const std::string &data, bool trunc) {
  int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | (trunc ? O_TRUNC : O_APPEND), 0644);
  if (fd < 0) return;
  (void)!write(fd, data.data(), data.size()); close(fd);
}
[[noreturn]] static void runCompiler(Rec &r, const VS &args, const std::function<std::string(const std::string &)> &map) {
  r.compilerRan = 1;
  for (auto &a : args) packArg(r.cargs, sizeof r.cargs, r.ncargs, r.clen, a);
  at(r, 0);
  if (args.size() == 2 && args[1] == "--version") { say(r, 1, "onnx-mlir version sim\n"); finish(r, 0, 0); }
  std::string in, out; int ins = 0;
  for (size_t i = 1; i < args.size(); i++) {
    if (args[i].rfind("-o=", 0) == 0) out = args[i].substr(3);
    else if (args[i] == "-o" && i + 1 < args.size()) out = args[++i];
    else if (isModel(args[i])) { in = args[i]; ins++; }
  }
  say(r, 1, "compiling " + in + "\n");
  if (ins != 1) { say(r, 2, "expected one input\n"); finish(r, 1, 0); }
  bool ok; std::string model = slurp(map(in), ok);
  if (!ok) { say(r, 2, "cannot open input\n"); finish(r, 3, 0); }
  at(r, 1);
  if (out.empty()) out = in.substr(0, in.find_last_of('.'));
  std::string of = map(out + extOf(args)), cf = map(out + ".constants.bin"), body = "OUT<" + model + ">" + (sim::prop() == "P11" ? r.path : std::to_string(&r - R));
  { int fd = __real_open(of.c_str(), O_WRONLY | O_CREAT, 0644); if (fd < 0) { say(r, 2, "cannot open output\n"); finish(r, 4, 0); } close(fd); if (!r.plan.out && slurp(of, ok).empty()) unlink(of.c_str()); }
  at(r, 2);
  if (r.plan.konst && strcmp(extOf(args), ".onnx.mlir")) { spill(cf, "CO", true); at(r, 3); spill(cf, "NST" + model, false); r.wroteConst = 1; }
  at(r, 4);
  say(r, 2, "warning\n");
  if (r.plan.out) { spill(of, body.substr(0, 4), true); at(r, 5); spill(of, body.substr(4), false); r.wroteOut = 1; }
  at(r, 6);
  say(r, 1, "done\n");
  finish(r, r.plan.crashAt == 7 ? r.plan.exitCode : 0, r.plan.crashAt == 7 ? r.plan.sig : 0);
}
static bool shellSplit(const std::string &c, VS &out) {
  std::string cur; bool have = false; char q = 0;
  for (size_t i = 0; i < c.size(); i++) {
    char ch = c[i];
    if (q == '\'') { if (ch == '\'') q = 0; else cur += ch; continue; }
    if (q == '"') { if (ch == '"') q = 0; else if (ch == '\\' && i + 1 < c.size() && strchr("$`\"\\", c[i + 1])) cur += c[++i]; else if (ch == '$' || ch == '`') return false; else cur += ch; continue; }
    if (ch == '\'' || ch == '"') { q = ch; have = true; continue; }
    if (ch == '\\') { if (i + 1 < c.size()) { cur += c[++i]; have = true; } continue; }
    if (ch == ' ' || ch == '\t') { if (have) out.push_back(cur); cur.clear(); have = false; continue; }
    if (strchr("$`;&|<>()*?[\n#~", ch)) return false;
    cur += ch; have = true;
  }
  if (q) return false;
  if (have) out.push_back(cur);
  return !out.empty();
}
static std::string norm(const std::string &p) { std::string s = fs::path(p).lexically_normal().string(); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
static bool under(const std::string &p, const std::string &dir) { return p == dir || dir == "/" || (p.size() > dir.size() && !p.compare(0, dir.size(), dir) && p[dir.size()] == '/'); }
static std::string hostOf(const std::string &real) { // the host's name of a directory of ours
  std::string p = W->prefix; while (p.size() > 1 && p.back() == '/') p.pop_back();
  if (!W->prefixOn || under(norm(real), p)) return norm(real);
  return norm(p + norm(real));
}
[[noreturn]] static void runEngine(Rec &r, const VS &a) {
  int e = !strcmp(r.engine, "podman");
  auto done = [&](int c) { finish(r, c, 0); };
  std::string v = a.size() > 1 ? a[1] : "";
  r.verb = v == "--version" ? V_VERSION : v == "info" ? V_INFO : v == "images" ? V_IMAGES : v == "image" ? V_INSPECT : v == "pull" ? V_PULL : v == "run" ? V_RUN : V_NONE;
  if (r.plan.engineFail) finish(r, 125, r.plan.engineFail == 2 ? SIGKILL : 0);
  if (v == "--version" || v == "version") { say(r, 1, "engine 1.0\n"); done(W->versionCode[e]); }
  if (W->versionCode[e]) done(1);
  if (v == "info") { say(r, 1, "info\n"); done(W->infoCode); }
  std::string last = a.back(); bool match = last == W->image;
  if (v == "images") { if (match && W->imagePresent) say(r, 1, "0123abcd\n"); done(0); }
  if (v == "image" && a.size() > 2 && (a[2] == "inspect" || a[2] == "exists")) { bool h = match && W->imagePresent; say(r, h ? 1 : 2, h ? "sha256:0123\n" : "no such image\n"); done(h ? 0 : 1); }
  if (v == "inspect") { bool h = match && W->imagePresent; done(h ? 0 : 1); }
  if (v == "pull") { if (match && !W->pullCode) W->imagePresent = 1; done(match ? W->pullCode : 1); }
  if (v != "run") { say(r, 2, "unknown command\n"); done(125); }
  std::string entry, work = "/"; std::vector<std::pair<std::string, std::string>> mounts; size_t i = 2;
  for (; i < a.size() && a[i][0] == '-'; i++) {
    auto val = [&](const char *opt, std::string &out) { std::string o = opt; if (a[i] == o && i + 1 < a.size()) { out = a[++i]; return true; } if (a[i].rfind(o + "=", 0) == 0) { out = a[i].substr(o.size() + 1); return true; } return false; };
    std::string x;
    if (a[i] == "--rm" || a[i] == "-i" || a[i] == "-t") continue;
    if (val("--entrypoint", entry) || val("-w", work) || val("--workdir", work)) continue;
    if (val("-v", x) || val("--volume", x)) {
      size_t c1 = x.find(':'), c2 = x.find(':', c1 + 1);
      if (c1 == std::string::npos || x[0] != '/' || x[c1 + 1] != '/') { say(r, 2, "bad volume\n"); done(125); }
      bool ro = c2 != std::string::npos && x.substr(c2 + 1).find("ro") != std::string::npos;
      if (!ro) mounts.push_back({norm(x.substr(0, c1)), norm(x.substr(c1 + 1, c2 == std::string::npos ? c2 : c2 - c1 - 1))});
      continue;
    }
    std::string skip; if (val("-e", skip) || val("--env", skip) || val("-u", skip) || val("--user", skip)) continue;
    say(r, 2, "unknown flag\n"); done(125);
  }
  if (i >= a.size()) done(125);
  strncpy(r.image, a[i].c_str(), sizeof r.image - 1);
  if (a[i] != W->image || !W->imagePresent) { say(r, 2, "no image\n"); done(125); }
  if (work[0] != '/') done(125);
  VS rest(a.begin() + i + 1, a.end()), words;
  if (entry == "sh" || entry == "/bin/sh" || entry == "bash") {
    if (rest.size() < 2 || rest[0] != "-c") done(2);
    if (!shellSplit(rest[1], words)) { say(r, 2, "sh: syntax or expansion\n"); done(2); }
  } else if (entry.empty()) { if (W->entrypointIsCompiler) { words = rest; words.insert(words.begin(), W->compilerIn); } else words = rest; }
  else { words = rest; words.insert(words.begin(), entry); }
  if (words.empty() || words[0] != W->compilerIn) { say(r, 2, "sh: not found\n"); done(127); }
  auto map = [&](const std::string &p) {
    std::string c = norm(p[0] == '/' ? p : work + "/" + p), best, host; bool got = false;
    for (auto &m : mounts) if (under(c, m.second) && (!got || m.second.size() >= best.size())) { got = true; best = m.second; host = m.first; }
    if (!got) return S + "/in-container/" + std::to_string(sim::hashBytes(c.data(), c.size()));
    std::string tail = best == "/" ? c : c.substr(best.size()), pre = W->prefix; while (pre.size() > 1 && pre.back() == '/') pre.pop_back();
    // the engine sees the host's file system
    std::string real = host + tail;
    if (W->prefixOn && under(host, pre) && !under(host, norm(S))) real = host.substr(pre.size()) + tail;
    if (W->prefixOn && hostOf(norm(real)) != norm(host + tail)) return S + "/on-host/" + std::to_string(sim::hashBytes(real.data(), real.size()));
    return real;
  };
  runCompiler(r, words, map);
}
static int progKind(const char *path) { std::string b = path; b = b.substr(b.rfind('/') + 1); if (b == "docker" || b == "podman") return P_ENGINE; if (b.find("onnx-mlir") != std::string::npos) return P_COMPILER; return P_PROGRAM; }
static void runProgram(Rec &r) {
  VS a = unpack(r.args, r.nargs, r.len);
  int k = progKind(r.path);
  if (k == P_ENGINE) {
    std::string b = r.path; b = b.substr(b.rfind('/') + 1); strncpy(r.engine, b.c_str(), sizeof r.engine - 1);
    runEngine(r, a);
  }
  if (k == P_COMPILER && sim::prop() != "P08") runCompiler(r, a, [](const std::string &p) { return p; });
  for (int i = 0; i < r.plan.out; i++) say(r, 1 + (i & 1), "line " + std::to_string(i) + " of " + std::to_string(&r - R) + "\n");
  finish(r, r.plan.exitCode, r.plan.sig);
}

// ------------------------------------------------------------ common checks
static std::set<std::string> baseFds; static std::string expectCwd;
static std::set<std::string> fds() { // descriptor -> identity
  std::set<std::string> s; DIR *d = opendir("/proc/self/fd"); int self = dirfd(d);
  while (dirent *e = readdir(d)) { int f = atoi(e->d_name); if (e->d_name[0] == '.' || f == self) continue; s.insert(std::to_string(f) + ":" + std::to_string(inoOf(f))); }
  closedir(d); return s;
}
static std::string cwdNow() { char b[4096]; return getcwd(b, sizeof b) ? b : "?"; }
static volatile int *atexitFlag;
static void onExit() { if (getpid() != g_parent && g_child >= 0) R[g_child].atexitRan = 1; }
static FILE *pend; static std::string pendWant;
static bool restoreFailed; // a failed change back was injected: the directory is then unspecified
static void childFaults(int from) {
  for (int i = from; i < nrec; i++) {
    if (R[i].openFired) sim::countFault("child-open-fails"); if (R[i].dupFired) sim::countFault("child-dup2-fails"); if (R[i].execFired) sim::countFault("exec-fails");
    if (R[i].plan.sig && R[i].sig) sim::countFault("program-killed"); if (R[i].execd && R[i].plan.engineFail) sim::countFault("engine-fails");
  }
}
static void quiesce(int from, const char *what) { // nothing left behind by a call
  bool left = false;
  for (int i = from; i < nrec; i++) if (R[i].gated && !R[i].released) left = true;
  for (int i = from; i < nrec && !sigchldIgnored; i++) if (kill(R[i].pid, 0) == 0 || errno != ESRCH) left = true;
  if (left) fail("child-left", "%s left a process unwaited", what);
  childFaults(from);
  for (int i = from; i < nrec; i++) if (R[i].atexitRan) fail("exit-handler-in-child", "%s ran the caller's exit handlers in the child", what);
  auto now = fds(); if (now != baseFds) fail("descriptors", "%s changed the open descriptors: %zu before, %zu after", what, baseFds.size(), now.size());
  if (!restoreFailed && cwdNow() != expectCwd) fail("working-directory", "%s left working directory %s", what, cwdNow().c_str() + std::min(S.size(), cwdNow().size()));
}
static unsigned count(const std::string &t, const std::string &w) { unsigned n = 0; for (size_t p = 0; (p = t.find(w, p)) != std::string::npos; p += w.size()) n++; return n; }
static std::vector<std::string> marks; static std::map<std::string, unsigned> outWant;
static void buffered() { // pending output of the caller
  if (!sim::chance(1, 2)) return;
  std::string m = "<mark" + std::to_string(marks.size()) + ">"; marks.push_back(m);
  fputs(m.c_str(), pend); fputs(m.c_str(), stdout);
}
static void checkBuffered() {
  fflush(pend); fflush(stdout); bool ok; std::string a = slurp(S + "/pend", ok), b = slurp(S + "/stdout", ok);
  for (auto &m : marks) { if (count(a, m) != 1) fail("output-repeated", "pending output of the caller appeared %u times in its file", count(a, m)); if (count(b, m) != 1) fail("output-repeated", "pending output of the caller appeared %u times", count(b, m)); }
}
// result of a call: 0 ok, 1 exception, 2 bad_alloc
template <class F> static int attempt(F f, std::string *what = nullptr) {
  sim::Sut s;
  try { f(); return 0; }
  catch (std::bad_alloc &) { sim::Env e; if (what) *what = "bad_alloc"; return 2; }
  catch (std::exception &e) { sim::Env v; if (what) *what = e.what(); return 1; }
}
static void begin(std::vector<const char *> kinds) {
  S = sim::scratch(); g_parent = getpid();
  R = (Rec *)mmap(nullptr, sizeof(Rec) * MAXR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  W = (World *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); nrecp = (int *)((char *)W + 32768);
  for (const char *d : {"/w", "/w/sub", "/m", "/o", "/o/out dir", "/w2", "/in-container", "/on-host"}) mkdir((S + d).c_str(), 0755);
  if (chdir((S + "/w").c_str())) fail("harness", "cannot enter the scratch directory");
  expectCwd = cwdNow();
  int fd = __real_open((S + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); __real_dup2(fd, 1); if (!sim::verbose()) __real_dup2(fd, 2); close(fd);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16); std::ios::sync_with_stdio(true);
  pend = fopen((S + "/pend").c_str(), "w"); setvbuf(pend, nullptr, _IOFBF, 1 << 16);
  atexit(onExit); baseFds = fds();
  sim::faultKinds(kinds); sim::allocFaults(false, true); sim::ledgerStart();
}
static unsigned hardFaults() { return sim::faultsFired() - sim::faultsFiredOf("wait-interrupted") - sim::faultsFiredOf("program-killed") - sim::faultsFiredOf("exec-fails") - sim::faultsFiredOf("engine-fails") - sim::faultsFiredOf("child-open-fails") - sim::faultsFiredOf("child-dup2-fails") - sim::faultsFiredOf("compiler-lies"); }

// ------------------------------------------------------------ P08
static const int SIGS[] = {SIGSEGV, SIGABRT, SIGILL, SIGFPE, SIGBUS, SIGKILL, SIGTERM, SIGINT, SIGHUP, SIGPIPE, SIGUSR1, SIGXCPU, SIGRTMIN + 3};
static const int EXERR[] = {ENOENT, EACCES, ENOEXEC, E2BIG, ENOMEM, ETXTBSY, ENOTDIR, EIO};
static bool g_clean;
static void draw08(Plan &p) {
  p.early = sim::chance(1, 2);
  if (!g_clean) switch (sim::choose(8)) {
    case 1: case 2: p.exitCode = sim::choose(256); break;
    case 3: p.sig = SIGS[sim::choose(13)]; break;
    case 4: p.execErr = EXERR[sim::choose(8)]; break;
    case 5: if (!g_log.empty() && sim::faultsArmed()) { if (sim::chance(1, 2)) p.openFail = sim::chance(1, 2) ? EACCES : ENOSPC; else p.dupFail = 1 + sim::choose(2); } break;
    default: break;
    }
  p.out = sim::choose(5);
}
static const VS ARGS = {"#3", "!x", "a", "-O3", "-o=x y", "", "--tag=t\"q", "it's", "$HOME", "a b c", "\\", "ünï", "-", "*", "%s%n", "x\ny"};
static void run08() {
  sim::Env env;
  begin({"fork-fails", "wait-interrupted", "chdir-fails", "getcwd-fails", "new-fails", "log-open-fails"}); g_draw = draw08;
  pid_t bystander = 0; if (sim::chance(1, 3)) { bystander = __real_fork(); if (!bystander) _exit(77); siginfo_t si; waitid(P_PID, bystander, &si, WEXITED | WNOWAIT); }
  if (sim::chance(1, 12)) { sigchldIgnored = !bystander; if (sigchldIgnored) signal(SIGCHLD, SIG_IGN); }
  int closed = sim::chance(1, 6) ? 1 + sim::choose(7) : 0; // standard streams the caller has closed
  for (int f = 0; f < 3; f++) if (closed >> f & 1) close(f);
  if (closed) { if (closed & 2) { stdout->_fileno = -1; } baseFds = fds(); }
  int n = 1 + sim::choose(6); std::unique_ptr<Command> cmd; VS want; std::string path; bool cmdVerbose = false; std::string log;
  for (int k = 0; k < n + 1; k++) {
    bool last = k == n; if (last) { sim::armFaults(false); g_clean = true; sigchldIgnored = false; signal(SIGCHLD, SIG_DFL); cmd.reset(); }
    unsigned f0 = hardFaults();
    if (!cmd || sim::chance(1, 3)) {
      static const VS P = {"prog", "/usr/bin/prog", "./rel/prog x", "", "dir.d/p", "onnx-mlir"};
      path = P[last ? 0 : sim::choose(6)]; cmdVerbose = !(closed & 2) && sim::chance(1, 4); cmd.reset(); log.clear();
      sim::op("command '%s'%s", path.c_str(), cmdVerbose ? " verbose" : "");
      int rc = attempt([&] { cmd.reset(new Command(path, cmdVerbose)); });
      if (path.empty()) { if (!rc) fail("empty-path", "a command without a path was accepted"); continue; }
      if (rc) { if (hardFaults() == f0) fail("spurious-error", "creating a command failed"); continue; }
      want = {path.substr(path.rfind('/') + 1)};
    }
    int m = sim::choose(4);
    for (int i = 0; i < m; i++) {
      VS l; int kind = sim::choose(4); int cnt = kind == 1 ? sim::choose(4) : 1; for (int j = 0; j < cnt; j++) l.push_back(sim::pick(ARGS));
      int rc;
      if (kind == 3) { sim::op("reset"); rc = attempt([&] { cmd->resetArgs(); }); if (!rc) want.resize(1); }
      else if (kind == 1) { sim::op("appendList %s", show(l).c_str()); rc = attempt([&] { cmd->appendList(l); }); if (!rc) for (auto &x : l) if (!x.empty()) want.push_back(x); }
      else { sim::op("appendStr %s", show(l).c_str()); rc = attempt([&] { cmd->appendStr(l[0]); }); if (!rc && !l[0].empty()) want.push_back(l[0]); }
      if (rc) { cmd.reset(); break; }
    }
    if (!cmd) { if (hardFaults() == f0) fail("spurious-error", "building a command failed"); continue; }
    if (cmd->getArgs() != want) fail("arguments", "the command has %s, was given %s", show(cmd->getArgs()).c_str(), show(want).c_str());
    static const VS WD = {"", "sub", "ABS", "missing", "sub/.."};
    std::string wd = WD[last ? 0 : sim::choose(5)]; if (wd == "ABS") wd = S + "/o/out dir"; bool badDir = wd == "missing";
    std::string wantDir = wd.empty() ? expectCwd : norm(fs::path(wd).is_absolute() ? wd : expectCwd + "/" + wd);
    if (sim::chance(1, 2)) { log = wd.empty() && sim::chance(1, 2) ? "rel.log" : S + "/o/log" + std::to_string(sim::choose(2)); int rc = attempt([&] { cmd->redirectExecStreams(log); }); if (rc) { cmd.reset(); if (hardFaults() == f0) fail("spurious-error", "redirection failed"); continue; } }
    else { log.clear(); int rc = attempt([&] { cmd->redirectExecStreams(""); }); if (rc) { cmd.reset(); continue; } }
    g_log = log; std::string logAbs = log.empty() || log[0] == '/' ? log : wantDir + "/" + log;
    if (!log.empty() && sim::chance(1, 3)) spill(logAbs, "old contents that are longer than the new ones, old contents that are longer\n", true);
    buffered();
    int from = nrec, status = -1; std::string what; unsigned ch0 = sim::faultsFiredOf("chdir-fails"), i0 = sim::faultsFiredOf("wait-interrupted"); uint64_t ino[3]; for (int f = 0; f < 3; f++) ino[f] = inoOf(f);
    sim::op("exec in '%s' log '%s'", wd.substr(0, 1) == "/" ? "abs" : wd.c_str(), log.empty() ? "" : log[0] == '/' ? "abs" : "rel");
    int rc = attempt([&] { status = cmd->exec(wd); }, &what);
    restoreFailed = sim::faultsFiredOf("chdir-fails") > ch0 && nrec > from || sim::faultsFiredOf("chdir-fails") > ch0 + 1 || (sim::faultsFiredOf("chdir-fails") > ch0 && hardFaults() - f0 > 1);
    sim::ev("  -> %d status %d", rc, status);
    quiesce(from, "executing a command");
    if (restoreFailed) { sim::Env e; syscall(SYS_chdir, expectCwd.c_str()); restoreFailed = false; if (rc == 0) fail("error-swallowed", "the failed return to the working directory was not reported"); }
    int forks = nrec - from, ran = 0; for (int i = from; i < nrec; i++) ran += R[i].execd;
    bool hard = hardFaults() > f0;
    if (ran > 1) fail("ran-twice", "the program was started %d times", ran);
    if (sim::faultsFiredOf("wait-interrupted") > i0) sim::probe("wait interrupted");
    Rec *r = forks ? &R[nrec - 1] : nullptr;
    if (rc == 0 && (!r || (!ran && !r->execFired && !r->openFired && !r->dupFired && !hard))) fail("not-run", "exec returned %d without running the program", status);
    if (badDir && ran) fail("wrong-directory", "the program ran although its directory does not exist");
    if (badDir && rc == 0) fail("error-swallowed", "a missing working directory was not reported");
    if (ran) {
      VS got = unpack(r->args, r->nargs, r->len);
      if (got != want) fail("arguments", "the program got %s instead of %s", show(got).c_str(), show(want).c_str());
      if (path != r->path) fail("arguments", "ran '%s' instead of '%s'", r->path, path.c_str());
      if (r->cwd != wantDir) fail("wrong-directory", "the program ran in another directory");
      if (!log.empty()) {
        struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, logAbs.c_str(), &st, 0)) fail("log", "there is no log file");
        uint64_t li = (uint64_t)st.st_ino * 1000003 + st.st_dev;
        for (int f = 1; f < 3; f++) if (!r->open[f] || r->ino[f] != li) fail("log", "stream %d of the program is not the log file", f);
        bool ok; std::string t = slurp(logAbs, ok); if (t != std::string(r->log, r->loglen)) fail("log", "the log file does not contain exactly what the program wrote");
      } else for (int f = 0; f < 3; f++) if (!!r->open[f] != !(closed >> f & 1) || (r->open[f] && r->ino[f] != ino[f])) fail("streams", "stream %d of the program is not the caller's", f);
    }
    if (r && (r->openFired || r->dupFired)) { sim::probe("redirection failed"); if (ran) fail("log", "the program ran although its output could not be redirected"); if (rc == 0 && status == 0) fail("error-swallowed", "a failed redirection was reported as success"); }
    if (r && ran && rc == 0 && !sigchldIgnored) { if (r->sig) fail("wrong-status", "the program died of signal %d, exec returned %d", r->sig, status); if (status != r->exitCode) fail("wrong-status", "the program exited with %d, exec returned %d", r->exitCode, status); }
    if (r && ran && rc == 0 && sigchldIgnored && status != r->exitCode) fail("wrong-status", "the program's status was lost, exec returned %d", status);
    if (r && ran && r->sig) sim::probe("killed by a signal");
    if (r && r->execFired && rc == 0) {
      int w = r->plan.execErr == ENOENT ? 16 : r->plan.execErr == EACCES ? 17 : 18; sim::probe("could not be executed");
      if (status != w) fail("wrong-status", "exec failed with errno %d, reported as %d instead of %d", r->plan.execErr, status, w);
    }
    if (rc && !hard && !badDir && !sigchldIgnored && !(r && ran && r->sig) && !(r && (r->openFired || r->dupFired))) fail("spurious-error", "exec raised an error although everything worked: %s", what.c_str());
    if (rc == 2 && !hard) fail("spurious-error", "out of memory without cause");
    sim::state(sim::hashBytes(&status, 4) * 31 + rc * 7 + (log.empty() ? 0 : 3) + closed * 1000 + sigchldIgnored * 5 + wd.size() % 7);
    if (cmd && cmd->getArgs() != want) fail("arguments", "executing changed the arguments");
  }
  cmd.reset();
  if (bystander) { int st; if (__real_waitpid(bystander, &st, WNOHANG) != bystander || WEXITSTATUS(st) != 77) fail("child-stolen", "another child of the caller was reaped"); }
  if (!(closed & 2)) checkBuffered();
}

// ------------------------------------------------------------ P09 / P10 / P23
static void draw09(Plan &p) {
  p.early = sim::chance(1, 2); p.out = 1; p.konst = sim::chance(1, 4);
  if (!g_clean) switch (sim::choose(8)) {
    case 1: p.crashAt = sim::choose(8); p.exitCode = 1 + sim::choose(sim::chance(1, 3) ? 255 : 20); break;
    case 2: p.crashAt = sim::choose(8); p.sig = SIGS[sim::choose(13)]; break;
    case 3: p.execErr = EXERR[sim::choose(8)]; break;
    case 4: if (!g_log.empty() && sim::faultsArmed()) { if (sim::chance(1, 2)) p.openFail = EACCES; else p.dupFail = 1 + sim::choose(2); } break;
    case 5: p.out = !sim::chance(1, 2); break;
    default: break;
    }
}
static void draw10(Plan &p) { draw09(p); if (!g_clean && sim::faultsArmed() && sim::chance(1, 10)) p.engineFail = 1 + sim::choose(2); if (p.execErr && !sim::chance(1, 4)) p.execErr = 0; if (p.sig && p.crashAt > 7) p.sig = 0; }
static std::string quote(const std::string &t) { // as the user writes a flag
  if (t.find_first_of(" \t\"'\\") == std::string::npos && !sim::chance(1, 6)) return t;
  switch (sim::choose(3)) {
  case 0: { std::string s = "\""; for (char c : t) { if (c == '"' || c == '\\') s += '\\'; s += c; } return s + "\""; }
  case 1: if (t.find('\'') == std::string::npos) { std::string s = "'"; for (char c : t) { if (c == '\\') s += '\\'; s += c; } return s + "'"; } // fall through
  default: { std::string s; for (char c : t) { if (strchr(" \t\"'\\", c)) s += '\\'; s += c; } return s; }
  }
}
struct Req { std::string model, input, flags, outPath, compiler, log, logAbs; VS tokens, argv; std::string outFile, constFile, tag; bool inputExists, hasModel; };
static const VS MODELS = {"m0.onnx", "sub/m 1.mlir", "ABS/m2.onnxtext", "ABS/it's.v2.onnx", "missing.onnx", "../m/m3.onnx"};
static std::string absOf(const std::string &p) { return norm(p[0] == '/' ? p : expectCwd + "/" + p); }
static std::string stemOf(const std::string &f) { std::string b = f.substr(f.rfind('/') + 1); size_t d = b.find_last_of('.'); return d == std::string::npos || d == 0 ? b : b.substr(0, d); }
static Req request(bool plain) {
  Req q; std::string m = plain ? MODELS[0] : sim::pick(MODELS); if (m.rfind("ABS", 0) == 0) m = S + "/m" + m.substr(3);
  if (plain && expectCwd != S + "/w") m = S + "/w/" + m;
  q.input = m; q.hasModel = plain || !sim::chance(1, 4); if (!plain && sim::chance(1, 16)) { q.input = ""; q.hasModel = false; }
  q.model = q.hasModel ? q.input : "";
  bool ok; slurp(q.input.empty() ? "" : absOf(q.input), ok); q.inputExists = ok && !q.input.empty();
  static const VS F = {"-O3", "--EmitLib", "-EmitObj", "--EmitJNI", "-EmitLib", "--EmitMLIR", "-EmitONNXIR", "--mcpu=z16", "-onnx-op-stats=TXT", "--custom=a b", "--q=\"x\"", "--s=it's", "--b=a\\b", "-opt-report=Simd", "--d=$HOME;x", "-l", "--", "--g=*"};
  int nf = plain ? 0 : sim::choose(4); bool emit = false;
  for (int i = 0; i < nf; i++) { std::string f = sim::pick(F); if (f == "--") continue; bool e = f.find("Emit") != std::string::npos; if (e && emit) continue; emit |= e; q.tokens.push_back(f); }
  if (!plain && sim::chance(1, 4)) { q.tag = sim::chance(1, 2) ? "t1" : "the tag"; q.tokens.push_back((sim::chance(1, 2) ? "--tag=" : "-tag=") + q.tag); }
  std::string o; int ok2 = plain ? 0 : sim::choose(4); size_t oAt = std::string::npos; bool eq = false;
  if (ok2) {
    static const VS O = {"out", "name.v2", "a name", "sub/out", "ABS/x", "nodir/x"}; o = sim::pick(O); if (o.rfind("ABS", 0) == 0) o = S + "/o" + o.substr(3);
    size_t at = sim::choose(q.tokens.size() + 1); eq = ok2 == 3; oAt = at;
    if (eq) q.tokens.insert(q.tokens.begin() + at, "-o=" + o); else { q.tokens.insert(q.tokens.begin() + at, o); q.tokens.insert(q.tokens.begin() + at, "-o"); }
  }
  if (!q.hasModel && !q.input.empty()) { // the model is among the flags, not after -o
    size_t at = sim::chance(1, 2) ? 0 : q.tokens.size(); q.tokens.insert(q.tokens.begin() + at, q.input); if (at == 0 && oAt != std::string::npos) oAt++;
  }
  if (!plain && sim::chance(1, 3)) { static const VS P = {"sub", "ABS/o", "ABS/o/out dir", "nodir", ".", "ABS/w2"}; q.outPath = sim::pick(P); if (q.outPath.rfind("ABS", 0) == 0) q.outPath = S + q.outPath.substr(3); }
  for (size_t i = 0; i < q.tokens.size(); i++) { if (i) q.flags += sim::chance(1, 8) ? "  " : " "; q.flags += quote(q.tokens[i]); }
  if (sim::chance(1, 10)) q.flags = " " + q.flags + "\t";
  q.argv = q.tokens; std::string base = o;
  if (!q.outPath.empty()) {
    if (oAt != std::string::npos) { if (o.find('/') == std::string::npos) { base = (fs::path(q.outPath) / o).string(); q.argv[eq ? oAt : oAt + 1] = (eq ? "-o=" : "") + base; } }
    else { base = (fs::path(q.outPath) / stemOf(q.input)).string(); q.argv.push_back("-o"); q.argv.push_back(base); }
  }
  if (base.empty()) base = q.input.substr(0, q.input.find_last_of('.'));
  if (q.hasModel) q.argv.push_back(q.input);
  q.outFile = base.empty() ? "" : absOf(base + extOf(q.tokens)); q.constFile = base.empty() || !strcmp(extOf(q.tokens), ".onnx.mlir") ? "" : absOf(base + ".constants.bin");
  static const VS C = {"", "", "", "/opt/bin/onnx-mlir", "./onnx-mlir-2"}; q.compiler = plain ? "" : sim::pick(C);
  if (!plain && sim::chance(1, 4)) { q.log = sim::chance(1, 2) ? "c.log" : S + "/o/c.log"; q.logAbs = absOf(q.log); }
  return q;
}
static void makeModels() { spill(S + "/w/m0.onnx", "zero", true); spill(S + "/w/sub/m 1.mlir", "one", true); spill(S + "/m/m2.onnxtext", "two", true); spill(S + "/m/it's.v2.onnx", "three", true); spill(S + "/m/m3.onnx", "four", true); }
static bool exists(const std::string &p) { struct stat st; return !p.empty() && !syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0); }
// the compilations among the processes started by a call
static std::vector<Rec *> compilations(int from) { std::vector<Rec *> v; for (int i = from; i < nrec; i++) if (R[i].compilerRan && !(R[i].ncargs == 2 && unpack(R[i].cargs, 2, R[i].clen)[1] == "--version")) v.push_back(&R[i]); return v; }
struct Sess { OMCompile *s = nullptr; PyOMCompile *py = nullptr; std::string compiler; bool container = false; bool ok = false; std::string out, konst, tag; bool stale = false; };
static void accessors(Sess &x, const char *when) {
  sim::armFaults(false);
  std::string o, c, t; int a, b, d; bool ok, has;
  if (x.py) { a = attempt([&] { o = x.py->pyGetOutputFilename(); }); b = attempt([&] { c = x.py->pyGetOutputConstantFilename(); }); d = attempt([&] { t = x.py->pyGetModelTag(); }); ok = x.py->pyIsSuccessfullyCompiled(); has = x.py->pyHasOutputConstantFilename(); }
  else { a = attempt([&] { o = x.s->getOutputFilename(); }); b = attempt([&] { c = x.s->getOutputConstantFilename(); }); d = attempt([&] { t = x.s->getModelTag(); }); ok = x.s->isSuccessfullyCompiled(); has = x.s->hasOutputConstantFilename(); }
  sim::armFaults(!g_clean);
  if (!x.ok) {
    if (ok || !a || !b || !d || has) fail("stale-result", "%s: a session without a compiled model reports %s", when, ok ? "success" : !a ? "an output" : !d ? "a tag" : "constants");
    return;
  }
  if (!ok || a || b || d) fail("result-lost", "%s: a successful session reports no result", when);
  if (norm(o) != x.out || o[0] != '/') fail("wrong-output", "%s: reported output %s instead of %s", when, o.c_str(), x.out.c_str());
  if (t != x.tag) fail("wrong-tag", "%s: tag '%s' instead of '%s'", when, t.c_str(), x.tag.c_str());
  if (has != !c.empty()) fail("wrong-constants", "%s: the two constants queries disagree", when);
  bool match = x.konst.empty() ? c.empty() : !c.empty() && c[0] == '/' && norm(c) == x.konst;
  if (!match && !x.stale) fail("wrong-constants", "%s: reported constants '%s' instead of '%s'", when, c.c_str(), x.konst.c_str());
}
static void compileOnce(Sess &x, const Req &q, int mode /*0 OMCompile, 1 py, 2 py reuse*/) {
  int from = nrec; unsigned f0 = hardFaults(), allF0 = sim::faultsFired(); std::string what, ret; g_log = q.log;
  bool outBefore = exists(q.outFile), constBefore = exists(q.constFile);
  buffered();
  std::string ftxt = q.flags; for (size_t p; (p = ftxt.find(S)) != std::string::npos;) ftxt.replace(p, S.size(), "S");
  std::string mtxt = q.model; if (mtxt.rfind(S, 0) == 0) mtxt = "S" + mtxt.substr(S.size());
  sim::op("compile model '%s' flags '%s' path '%s' compiler '%s' log %d mode %d", mtxt.c_str(), ftxt.c_str(), q.outPath.empty() || q.outPath[0] != '/' ? q.outPath.c_str() : "S", q.compiler.c_str(), !q.log.empty(), mode);
  int rc = attempt([&] {
    if (mode) ret = x.py->compile(q.model, q.flags, q.outPath, q.compiler, q.log, mode == 2);
    else x.s->compile(q.model, q.flags, q.outPath, q.compiler, q.log);
  }, &what);
  sim::ev("  -> %d", rc);
  quiesce(from, "compiling");
  auto cs = compilations(from); bool hard = hardFaults() > f0;
  if (cs.size() > 1) fail("compiled-twice", "the compiler ran %zu times", cs.size());
  Rec *c = cs.empty() ? nullptr : cs[0]; Rec *last = nrec > from ? &R[nrec - 1] : nullptr;
  if (mode == 2 && rc == 0 && !c && !last) { // reused
    if (!outBefore) fail("reused-nothing", "no compilation, but %s did not exist", q.outFile.c_str());
    if (norm(ret) != q.outFile || ret[0] != '/') fail("wrong-output", "reuse returned %s instead of %s", ret.c_str(), q.outFile.c_str());
    sim::probe("reused"); return; // what the session itself reports is unspecified now
  }
  if (mode == 2 && outBefore && !hard && q.inputExists) fail("reuse-missed", "the existing library was not reused");
  // the program
  if (c) {
    VS got = unpack(c->cargs, c->ncargs, c->clen), want = q.argv;
    if (x.container) { if (q.hasModel) want.back() = absOf(q.input); want.insert(want.begin(), W->compilerIn); if (q.hasModel && !got.empty()) got.back() = norm(got.back()); }
    else { std::string p = !q.compiler.empty() ? q.compiler : x.compiler.empty() ? "onnx-mlir" : x.compiler; if (p != c->path) fail("wrong-compiler", "ran %s instead of %s", c->path, p.c_str()); want.insert(want.begin(), p.substr(p.rfind('/') + 1)); if (c->cwd != expectCwd) fail("wrong-directory", "the compiler ran in another directory"); }
    if (got != want) fail("wrong-arguments", "the compiler got %s instead of %s", show(got).c_str(), show(want).c_str());
    if (!q.log.empty()) { bool ok; std::string t = slurp(q.logAbs, ok); if (!ok || t != std::string(c->log, c->loglen)) fail("log", "the log file does not contain what the compiler wrote"); }
  }
  if (x.container) {
    int runs = 0; for (int i = from; i < nrec; i++) if (R[i].execd) { if (R[i].verb == V_RUN) runs++; if (x.s->getContainerEngineName() != R[i].engine) fail("wrong-engine", "a compilation used %s", R[i].engine); }
    if (runs > 1) fail("compiled-twice", "%d containers were started", runs);
  }
  if (rc == 0) {
    if (!c) fail("success-without-compiler", "compile succeeded although the compiler did not run");
    if (c->sig || c->exitCode) fail("failure-swallowed", "compile succeeded although the compiler ended with %s %d", c->sig ? "signal" : "status", c->sig ? c->sig : c->exitCode);
    if (!exists(q.outFile)) fail("success-without-output", "compile succeeded without its output file");
    if (!c->wroteOut) { sim::countFault("compiler-lies"); if (!outBefore) fail("success-without-output", "compile succeeded although the compiler wrote nothing"); }
    if (mode && (norm(ret) != q.outFile || ret.empty() || ret[0] != '/')) fail("wrong-output", "compile returned %s instead of %s", ret.c_str(), q.outFile.c_str());
    x.ok = true; x.out = q.outFile; x.tag = q.tag; x.stale = q.constFile.empty() || (constBefore && !c->wroteConst); x.konst = exists(q.constFile) ? q.constFile : ""; sim::probe(c->wroteConst ? "compiled with constants" : "compiled");
  } else {
    bool childFault = last && (last->openFired || last->dupFired || last->execFired || last->plan.engineFail);
    bool bad = !q.inputExists || hard || childFault || (c && (c->sig || c->exitCode || (!c->wroteOut && !exists(q.outFile)))) ;
    if (!bad) fail("spurious-error", "compile raised an error although the compiler succeeded: %s", what.c_str());
    if (c && (c->sig || c->exitCode)) sim::probe("compiler failed");
    x.ok = false;
  }
  if (rc == 2 && !hard) fail("spurious-error", "out of memory without cause");
  if (mode && rc && hard) return; // refused before the session was asked
  accessors(x, rc ? "after a failed compilation" : "after a compilation");
  sim::state(std::string(x.ok ? "ok" : "no") + std::to_string(rc) + std::to_string(outBefore * 2 + constBefore) + std::to_string(c ? c->plan.crashAt : -1) + std::to_string(mode) + (q.hasModel ? "m" : "f") + std::to_string(q.outPath.size() > 0));
}
static void freeSess(Sess &x) { sim::Sut s; delete x.s; delete x.py; x.s = nullptr; x.py = nullptr; }
static void moveAround(bool many) {
  switch (sim::choose(many ? 4 : 3)) {
  case 0: break;
  case 1: { static const VS D = {"/w", "/w/sub", "/o"}; std::string d = S + sim::pick(D); sim::op("change directory"); syscall(SYS_chdir, d.c_str()); expectCwd = d; } break;
  case 2: { sim::op("old outputs removed"); for (const char *d : {"/w", "/w/sub", "/m", "/o", "/o/out dir", "/w2"}) { DIR *dp = opendir((S + d).c_str()); while (dirent *e = readdir(dp)) { std::string n = e->d_name; auto ends = [&](const char *x) { return n.size() > strlen(x) && n.substr(n.size() - strlen(x)) == x; }; if (ends(".so") || ends(".o") || ends(".jar") || ends(".onnx.mlir") || ends(".bin")) unlink((S + d + "/" + n).c_str()); } closedir(dp); } } break;
  default: break;
  }
}
static void run09() {
  sim::Env env; bool py = sim::prop() == "P23";
  begin({"fork-fails", "wait-interrupted", "getcwd-fails", "stat-fails", "new-fails", "log-open-fails", "fopen-fails"}); g_draw = draw09; makeModels();
  int n = 2 + sim::choose(py ? 8 : 6); std::vector<Sess> ss(1 + sim::choose(2)); Req prev; bool havePrev = false; std::string prevCwd;
  for (int k = 0; k <= n; k++) {
    bool last = k == n; if (last) { sim::armFaults(false); g_clean = true; }
    Sess &x = ss[sim::choose(ss.size())];
    if (!x.s && !x.py) {
      unsigned f0 = hardFaults(); int from = nrec; static const VS C = {"", "/opt/onnx-mlir", "onnx-mlir-x"}; x = Sess(); x.compiler = sim::pick(C); bool dflt = !py && sim::chance(1, 2), verb = !dflt && sim::chance(1, 6); if (dflt) x.compiler = "";
      sim::op("session compiler '%s'%s", x.compiler.c_str(), verb ? " verbose" : "");
      g_log.clear();
      int rc = attempt([&] { if (py) x.py = new PyOMCompile(x.compiler, verb); else x.s = dflt ? new OMCompile() : new OMCompile(x.compiler, verb); });
      quiesce(from, "creating a session");
      bool failed = false; for (int i = from; i < nrec; i++) if (R[i].execFired || R[i].sig || R[i].exitCode) failed = true;
      if (rc && hardFaults() == f0 && !failed) fail("spurious-error", "creating a session failed");
      if (!rc && failed) fail("failure-swallowed", "a session was created although its compiler does not work");
      if (rc) { x.s = nullptr; x.py = nullptr; if (!last) continue; x.compiler = ""; if (py) x.py = new PyOMCompile("", false); else x.s = new OMCompile(); }
      accessors(x, "a fresh session");
    }
    if (!last && sim::chance(1, 3)) moveAround(true);
    if (!last && sim::chance(1, 12)) { freeSess(x); continue; }
    if (last && expectCwd != S + "/w") { syscall(SYS_chdir, (S + "/w").c_str()); expectCwd = S + "/w"; }
    bool again = !last && havePrev && prevCwd == expectCwd && sim::chance(1, 3); // the same request once more
    Req q = again ? prev : request(last);
    compileOnce(x, q, py ? sim::chance(1, 2) ? 2 : 1 : 0);
    if (last && !py && !x.ok) fail("no-recovery", "a compilation without faults failed");
    prev = q; havePrev = true; prevCwd = expectCwd;
    if (!last && sim::chance(1, 4)) { Sess &y = ss[sim::choose(ss.size())]; if ((y.s || y.py) && !py) accessors(y, "later"); }
  }
  for (auto &x : ss) freeSess(x);
  checkBuffered();
}
static void run10() {
  sim::Env env; begin({"fork-fails", "wait-interrupted", "getcwd-fails", "stat-fails", "new-fails"}); g_draw = draw10; makeModels();
  for (int e = 0; e < 2; e++) { W->installed[e] = !sim::chance(1, 4); W->versionCode[e] = sim::chance(1, 5) ? 1 + sim::choose(127) : 0; }
  W->infoCode = sim::chance(1, 5); W->pullCode = sim::chance(1, 3); W->imagePresent = !sim::chance(1, 3);
  unsetenv("container"); unsetenv("OM_DIND_DISABLE"); unsetenv("OM_DOCKER_HOST_PATH_PREFIX");
  bool dis = false, envC = false; int cg = 0;
  if (sim::chance(1, 2)) {
    W->dockerenv = sim::chance(1, 4); W->containerenv = sim::chance(1, 4); W->sock = !sim::chance(1, 4); cg = sim::choose(6); W->host = sim::choose(3);
    if (sim::chance(1, 6)) { envC = true; setenv("container", "podman", 1); }
    if (sim::chance(1, 5)) { std::string v = sim::chance(1, 3) ? "0" : "1"; dis = v == "1"; setenv("OM_DIND_DISABLE", v.c_str(), 1); }
  }
  static const char *CG[] = {"0::/user.slice\n", "12:cpu:/user\n1:x:/docker/abc\n", "0::/system.slice/containerd.service\n", "0::/\n", "", "3:mem:/libpod/podman-7\n"};
  if (cg != 4) spill(S + "/cgroup", CG[cg], true);
  bool dind = W->dockerenv || W->containerenv || envC || cg == 1 || cg == 2 || cg == 5 || (cg == 3 && W->host == 1);
  if (sim::chance(1, 2)) {
    std::string pre; switch (sim::choose(4)) { case 0: pre = "/host"; break; case 1: pre = "/mnt/my host/"; break; case 2: pre = S.substr(0, S.size() - 1); break; default: pre = S; }
    setenv("OM_DOCKER_HOST_PATH_PREFIX", pre.c_str(), 1); strncpy(W->prefix, pre.c_str(), sizeof W->prefix - 1); W->prefixOn = dind && !dis;
  }
  static const VS IM = {"ghcr.io/onnxmlir/onnx-mlir", "ghcr.io/onnxmlir/onnx-mlir-dev", "my/image:1", "icr.io/ibmz/zdlc:5.0.0", ""};
  static const VS CP = {"", "/bin/onnx-mlir", "onnx-mlir"};
  std::string im = sim::pick(IM), cp = sim::pick(CP), effI = im.empty() ? IM[0] : im;
  std::string effC = !cp.empty() ? cp : effI == IM[0] ? "onnx-mlir" : effI == IM[1] ? "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir" : "";
  strncpy(W->image, effI.c_str(), 255); strncpy(W->compilerIn, effC.c_str(), 255);
  bool autoPull = sim::chance(1, 2), verb = sim::chance(1, 5); int eng = sim::choose(3); Sess x; x.container = true;
  static Drawer inner = draw10;
  // a missing engine cannot be executed: decided by its name, in doExec's plan
  int tries = 1 + sim::choose(3); 
  for (int t = 0; t < tries && !x.s; t++) {
    int from = nrec; unsigned f0 = hardFaults(); std::string what; bool had = W->imagePresent;
    sim::op("container session image '%s' compiler '%s' engine %d pull %d; docker %d/%d podman %d/%d image %d pullcode %d nested %d disabled %d", im.c_str(), cp.c_str(), eng, autoPull, W->installed[0], W->versionCode[0], W->installed[1], W->versionCode[1], had, W->pullCode, dind, dis);
    g_log.clear();
    int rc = attempt([&] { x.s = new OMCompile(im, cp, eng == 0 ? OMCompile::ContainerEngine::Docker : eng == 1 ? OMCompile::ContainerEngine::Podman : OMCompile::ContainerEngine::Auto, autoPull, verb); }, &what);
    sim::ev("  -> %d", rc); quiesce(from, "creating a container session");
    bool soft = hardFaults() > f0, good[2] = {false, false}; int pulls = 0, info = 0, infoBad = 0;
    for (int i = from; i < nrec; i++) {
      Rec &r = R[i]; if ((r.execd && r.plan.engineFail) || r.execFired || r.sig) soft = true;
      if (r.execd && r.verb == V_VERSION && !r.exitCode && !r.sig) good[!strcmp(r.engine, "podman")] = true;
      if (r.execd && r.verb == V_PULL) pulls++; if (r.execd && r.verb == V_INFO) { info++; if (r.exitCode || r.sig) infoBad++; }
    }
    bool works[2]; for (int e = 0; e < 2; e++) works[e] = W->installed[e] && !W->versionCode[e];
    int use = eng == 0 ? (works[0] ? 0 : -1) : eng == 1 ? (works[1] ? 1 : -1) : works[0] ? 0 : works[1] ? 1 : -1;
    bool nest = dind && !dis, can = use >= 0 && (!nest || (W->sock && !W->infoCode)) && (had || (autoPull && !W->pullCode)) && !effC.empty();
    if (pulls && !autoPull) fail("pulled-without-permission", "an image was pulled although pulling was not allowed");
    if (!rc) {
      std::string e = x.s->getContainerEngineName(); int ei = e == "podman";
      if (e != "docker" && e != "podman") fail("no-engine", "a container session without an engine was created");
      if (!good[ei]) fail("broken-engine", "a container session uses an engine that did not work");
      if (!W->imagePresent) fail("no-image", "a container session was created without its image");
      if (effC.empty()) fail("no-compiler", "a container session was created without a compiler");
      if (!soft && nest && (!W->sock || W->infoCode || infoBad)) fail("no-socket", "a nested container session was created without access to the engine");
      if (eng < 2 && ei != eng) fail("wrong-engine", "the requested engine was not used");
      if (!soft && ei != use) fail("wrong-engine", "engine %s was chosen", e.c_str());
      if (had && pulls && !soft) fail("needless-pull", "an image that was present was pulled");
      if (!soft && x.s->isRunningInContainer() != nest) fail("nesting", "running in a container was judged %d instead of %d", !nest, nest);
      accessors(x, "a fresh container session"); sim::probe(had ? "container session" : "container session after a pull");
    } else { x.s = nullptr; if (can && !soft) fail("spurious-error", "creating a container session failed: %s", what.c_str()); sim::probe("container session refused"); }
    if (rc == 2 && hardFaults() == f0) fail("spurious-error", "out of memory without cause");
    sim::state(std::to_string(rc) + std::to_string(use) + std::to_string(had) + std::to_string(autoPull) + std::to_string(nest) + std::to_string(effC.empty()) + std::to_string(W->prefixOn));
  }
  if (x.s) {
    int n = 1 + sim::choose(4);
    for (int k = 0; k <= n; k++) {
      if (k == n) { sim::armFaults(false); g_clean = true; }
      if (k < n && sim::chance(1, 3)) moveAround(true);
      if (k == n && expectCwd != S + "/w") { syscall(SYS_chdir, (S + "/w").c_str()); expectCwd = S + "/w"; }
      Req q = request(k == n); q.compiler = "";
      compileOnce(x, q, 0);
      if (k == n && !x.ok) fail("no-recovery", "a container compilation without faults failed");
    }
  }
  freeSess(x); checkBuffered();
}
#ifdef THREADED
// ------------------------------------------------------------ P11
// Every task's calls first run alone, then all tasks run together; each call
// must come to the same end and leave the same files.
struct Call11 { Req q; std::vector<Plan> plans; };
struct Prog11 { bool container, autoPull, py, verbose; std::string compiler, image, inside; int engine; std::vector<Call11> calls; };
struct Out11 { std::string text; bool faulty; };
static thread_local std::vector<Plan> *t_plans; static thread_local unsigned t_at;
static void draw11(Plan &p) { if (t_plans && t_at < t_plans->size()) p = (*t_plans)[t_at++]; else p = Plan{0, 0, 0, 0, 0, 1000, 1, 0, 0, 0}; }
static Req request11(const std::string &home) {
  Req q; static const VS M = {"m0.onnx", "sub/m 1.mlir", "ABS/m0.onnx", "missing.onnx", "it's.v2.onnxtext"};
  std::string m = sim::pick(M); m = m.rfind("ABS", 0) == 0 ? S + "/w/" + home + m.substr(3) : home + "/" + m;
  q.hasModel = !sim::chance(1, 6); q.model = q.hasModel ? m : "";
  static const VS F = {"-O3", "--EmitLib", "-EmitObj", "--EmitJNI", "--EmitMLIR", "--mcpu=z16", "--custom=a b", "--tag=", "--q=\"x\""};
  int nf = sim::choose(4); bool emit = false;
  for (int i = 0; i < nf; i++) { std::string f = sim::pick(F); bool e = f.find("Emit") != std::string::npos; if (e && emit) continue; emit |= e; if (f == "--tag=") f += home + std::to_string(sim::choose(3)); q.tokens.push_back(f); }
  int path = sim::choose(3); if (path) q.outPath = path == 1 ? home + "/out" : S + "/o/" + home;
  if (sim::chance(1, 2)) { std::string o = path && sim::chance(1, 2) ? "lib" : home + "/lib"; if (sim::chance(1, 2)) q.tokens.push_back("-o=" + o); else { q.tokens.push_back("-o"); q.tokens.push_back(o); } }
  if (!q.hasModel) q.tokens.insert(q.tokens.begin(), m);
  for (size_t i = 0; i < q.tokens.size(); i++) { if (i) q.flags += " "; q.flags += quote(q.tokens[i]); }
  if (sim::chance(1, 3)) { static const VS C = {"/opt/bin/onnx-mlir", "./onnx-mlir-2"}; q.compiler = sim::pick(C); }
  if (sim::chance(1, 2)) q.log = sim::chance(1, 2) ? home + "/c.log" : S + "/o/" + home + "/c.log";
  return q;
}
static void tree(const std::string &d, std::string &out) {
  std::vector<std::string> n; DIR *dp = opendir(d.c_str()); if (!dp) return;
  while (dirent *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
  closedir(dp); std::sort(n.begin(), n.end());
  for (auto &x : n) { struct stat st; std::string p = d + "/" + x; if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0)) continue; if (S_ISDIR(st.st_mode)) { tree(p, out); continue; } bool ok; out += p.substr(S.size()) + "=" + slurp(p, ok) + "\n"; }
}
static void home11(int k) {
  std::string h = "/t" + std::to_string(k);
  for (const char *d : {"/w", "/o"}) { std::error_code e; fs::remove_all(S + d + h, e); mkdir((S + d + h).c_str(), 0755); }
  mkdir((S + "/w" + h + "/sub").c_str(), 0755); mkdir((S + "/w" + h + "/out").c_str(), 0755);
  spill(S + "/w" + h + "/m0.onnx", "zero" + h, true); spill(S + "/w" + h + "/sub/m 1.mlir", "one" + h, true); spill(S + "/w" + h + "/it's.v2.onnxtext", "two" + h, true);
}
static std::string procs11(int from, int k) {
  std::string s; uint64_t base = inoOf(1);
  for (int i = from; i < nrec; i++) {
    Rec &r = R[i]; if (r.task != k) continue;
    s += std::string("process ") + r.path + " in " + r.cwd + " " + show(unpack(r.args, r.nargs, r.len)) + " ends " + std::to_string(r.done) + "/" + std::to_string(r.exitCode) + "/" + std::to_string(r.sig) + (r.execFired ? " exec" : "") + (r.openFired ? " open" : "") + (r.dupFired ? " dup" : "");
    for (int f = 1; f < 3; f++) s += r.open[f] ? r.ino[f] == base ? " caller's" : " own" : " closed";
    s += "\n";
  }
  return s;
}
static std::vector<Out11> go11(int k, Prog11 &p) {
  std::vector<Out11> out; OMCompile *s = nullptr; PyOMCompile *py = nullptr; t_task = k; std::string h = "/t" + std::to_string(k);
  for (size_t c = 0; c < p.calls.size(); c++) {
    Req &q = p.calls[c].q; Out11 o; o.faulty = false; int from = nrec; std::string what, ret; uint64_t f0 = sim::taskFaults(); int rc;
    t_plans = &p.calls[c].plans; t_at = 0; g_log = c ? q.log : "";
    sim::op("thread %d: %s", k, c ? "compile" : "session");
    if (c == 0) {
      rc = attempt([&] {
        auto e = p.engine == 0 ? OMCompile::ContainerEngine::Docker : p.engine == 1 ? OMCompile::ContainerEngine::Podman : OMCompile::ContainerEngine::Auto;
        if (p.container) { if (p.py) py = new PyOMCompile(p.image, p.inside, p.engine == 0 ? "docker" : p.engine == 1 ? "podman" : "auto", false, p.verbose); else s = new OMCompile(p.image, p.inside, e, false, p.verbose); }
        else if (p.py) py = new PyOMCompile(p.compiler, p.verbose); else s = new OMCompile(p.compiler, p.verbose);
      }, &what);
    } else rc = attempt([&] { if (py) ret = py->compile(q.model, q.flags, q.outPath, p.container ? "" : q.compiler, q.log, false); else s->compile(q.model, q.flags, q.outPath, p.container ? "" : q.compiler, q.log); }, &what);
    { sim::Env e; if (rc && p.verbose) sim::probe("failed, verbose"); }
    o.text = "result " + std::to_string(rc) + " " + what + " " + ret + "\n" + procs11(from, k);
    if (s || py) {
      std::string a, b, t; bool ok; { sim::Sut su; ok = py ? py->pyIsSuccessfullyCompiled() : s->isSuccessfullyCompiled(); }
      attempt([&] { a = py ? py->pyGetOutputFilename() : s->getOutputFilename(); }); attempt([&] { b = py ? py->pyGetOutputConstantFilename() : s->getOutputConstantFilename(); }); attempt([&] { t = py ? py->pyGetModelTag() : s->getModelTag(); });
      o.text += "session " + std::to_string(ok) + " '" + a + "' '" + b + "' '" + t + "'\n";
    }
    tree(S + "/w" + h, o.text); tree(S + "/o" + h, o.text);
    o.faulty = sim::taskFaults() != f0; out.push_back(o);
    if (!s && !py) break;
    if (o.faulty) break; // what follows depends on what the fault left
  }
  { sim::Sut su; delete s; delete py; }
  t_plans = nullptr; return out;
}
static void run11() {
  sim::Env env; begin({"fork-fails", "wait-interrupted", "getcwd-fails", "stat-fails", "new-fails", "fopen-fails"}); g_draw = draw11;
  unsetenv("container"); unsetenv("OM_DIND_DISABLE"); unsetenv("OM_DOCKER_HOST_PATH_PREFIX");
  for (int e = 0; e < 2; e++) { W->installed[e] = !sim::chance(1, 5); W->versionCode[e] = sim::chance(1, 6) ? 1 + sim::choose(127) : 0; }
  W->infoCode = sim::chance(1, 6); W->imagePresent = !sim::chance(1, 6); W->sock = !sim::chance(1, 4); W->host = sim::choose(3); W->dockerenv = sim::chance(1, 3);
  spill(S + "/cgroup", sim::chance(1, 4) ? "1:x:/docker/abc\n" : "0::/user.slice\n", true);
  if (sim::chance(1, 5)) setenv("OM_DIND_DISABLE", "1", 1);
  std::string im = "ghcr.io/onnxmlir/onnx-mlir", in = "onnx-mlir"; strncpy(W->image, im.c_str(), 255); strncpy(W->compilerIn, in.c_str(), 255);
  int n = 2 + sim::choose(3); std::vector<Prog11> P(n); bool quietFaults = sim::chance(1, 3);
  for (int k = 0; k < n; k++) {
    Prog11 &p = P[k]; p.container = sim::chance(1, 3); p.py = sim::chance(1, 3); p.verbose = sim::chance(1, 8); p.engine = sim::choose(3); p.image = sim::chance(1, 2) ? "" : im; p.inside = "";
    static const VS C = {"", "/opt/onnx-mlir", "onnx-mlir-x"}; p.compiler = sim::pick(C);
    p.calls.resize(2 + sim::choose(3));
    for (size_t c = 0; c < p.calls.size(); c++) {
      if (c) p.calls[c].q = request11("t" + std::to_string(k)); g_log = p.calls[c].q.log; p.calls[c].plans.resize(c == 0 && p.container ? 8 : 1); g_clean = c == 0 && sim::chance(3, 4);
      for (auto &pl : p.calls[c].plans) { memset(&pl, 0, sizeof pl); pl.crashAt = 1000; draw10(pl); }
    }
    g_clean = false;
  }
  std::vector<std::vector<Out11>> alone(n), both(n);
  sim::armFaults(false);
  for (int k = 0; k < n; k++) home11(k);
  for (int k = 0; k < n; k++) alone[k] = go11(k, P[k]);
  for (int k = 0; k < n; k++) home11(k);
  int from = nrec; sim::armFaults(!quietFaults);
  sim::schedStart(); bool over = false;
  for (int k = 0; k < n; k++) { char nm[16]; snprintf(nm, sizeof nm, "thread%d", k); sim::taskSpawn(nm, [&, k] { both[k] = go11(k, P[k]); }); }
  sim::taskSpawn("observer", [&] { for (int i = 0; i < 12; i++) { if (cwdNow() != expectCwd) fail("working-directory", "another thread saw the working directory change"); if (over) break; sim::yieldPoint("observe"); if (sim::chance(1, 2)) sim::sleepUntil(sim::now() + 1 + sim::choose(300)); } });
  sim::schedFinish(); sim::armFaults(false);
  quiesce(from, "compiling in several threads");
  for (int k = 0; k < n; k++) {
    for (size_t c = 0; c < both[k].size(); c++) {
      if (both[k][c].faulty) { sim::probe("a call with a fault of its own"); break; }
      if (c >= alone[k].size() || both[k][c].text != alone[k][c].text) {
        if (sim::verbose()) fprintf(stderr, "--- alone\n%s--- together\n%s", c < alone[k].size() ? alone[k][c].text.c_str() : "(none)", both[k][c].text.c_str());
        std::string a = c < alone[k].size() ? alone[k][c].text : "", b = both[k][c].text; size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++; size_t l = b.rfind('\n', d ? d - 1 : 0); l = l == std::string::npos || l >= d ? 0 : l + 1;
        auto line = [&](const std::string &t) { std::string x = l < t.size() ? t.substr(l, t.find('\n', l) - l) : ""; for (size_t q; (q = x.find(S)) != std::string::npos;) x.replace(q, S.size(), "S"); return x; };
        fail("interference", "call %zu of thread %d: alone '%s', with others '%s'", c, k, line(a).c_str(), line(b).c_str());
      }
      sim::probe(both[k][c].text.compare(7, 1, "0") ? "failed as alone" : "succeeded as alone"); if (P[k].container) sim::probe("container session");
    }
    if (both[k].size() < alone[k].size() && (both[k].empty() || !both[k].back().faulty)) fail("interference", "thread %d made fewer calls than alone", k);
  }
  sim::state(std::to_string(n) + "/" + std::to_string(sim::schedSwitches()));
}
#endif
static void run() { const std::string &p = sim::prop();
#ifdef THREADED
  (void)run08; (void)run09; (void)run10; if (p == "P11") run11(); else
#endif
  if (p == "P08") run08(); else if (p == "P10") run10(); else run09(); }
static void warm() { std::cout.flush(); try { Command c("x"); c.appendStr("y"); (void)fs::current_path(); } catch (...) {} }
int main(int argc, char **argv) { sim::Options o; o.needScratch = true; return sim::simMain(argc, argv, o, warm, run); }
