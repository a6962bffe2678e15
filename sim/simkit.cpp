#include "simkit.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <dirent.h>

namespace sim {
static const unsigned MAXCH = 1 << 17, MAXLOG = 1 << 21, MAXK = 64, MAXP = 256, MAXST = 1 << 14;
struct Counter { char name[48]; uint64_t a, b; };
struct Shared {
  uint32_t nch; uint32_t ch[MAXCH];
  uint32_t loglen; bool logtrunc; uint64_t loghash; char log[MAXLOG];
  uint32_t nk; Counter k[MAXK];
  uint32_t np; Counter p[MAXP];
  uint32_t nst; uint64_t st[MAXST];
  uint64_t ns, steps, ops, nev;
  volatile int violated, finished, discarded;
  char vclass[128]; char vtext[4096];
  uint32_t fired;
};
static Shared *S;
static bool g_active = false, g_replay = false, g_verbose = false;
static uint32_t *g_rep; static size_t g_nrep;
static uint64_t g_rng[4], g_frng[4];
bool t_sut = false; // of the running task; simsched saves and restores it
static bool g_armed = false;
static std::string g_scratch, g_prop;
static char **g_argv; // arguments are looked up in place: parsing them leaves no trace in the heap

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next(uint64_t *s) {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static void seedRng(uint64_t seed) {
  uint64_t x = seed;
  for (int i = 0; i < 4; i++) g_rng[i] = splitmix(x);
  x ^= 0xdeadbeefcafef00dull;
  for (int i = 0; i < 4; i++) g_frng[i] = splitmix(x);
}
bool active() { return g_active; }
void *shared() { return S; }
static uint32_t record(uint32_t v) {
  uint32_t i = S->nch;
  if (i >= MAXCH) fail("hang", "more than %u decisions in one run", MAXCH);
  S->ch[i] = v; S->nch = i + 1;
  return v;
}
static bool replayed(uint32_t &v, uint64_t n) {
  if (!g_replay) return false;
  uint32_t i = S->nch;
  v = i < g_nrep ? g_rep[i] : 0;
  if (v >= n) v = n - 1;
  return true;
}
uint64_t choose(uint64_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (!replayed(v, n)) v = (uint32_t)(next(g_rng) % n);
  return record(v);
}
bool chance(unsigned num, unsigned den) {
  uint32_t v;
  if (!replayed(v, 2)) v = (next(g_rng) % den) < num;
  return record(v);
}
int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choose((uint64_t)(hi - lo + 1)); }

static Counter *counter(Counter *arr, uint32_t &n, unsigned max, const char *name) {
  for (uint32_t i = 0; i < n; i++) if (!strcmp(arr[i].name, name)) return &arr[i];
  if (n >= max) return &arr[max - 1];
  Counter *c = &arr[n]; memset(c, 0, sizeof *c); strncpy(c->name, name, sizeof c->name - 1); n++;
  return c;
}
// fault plan (not recorded: only its outcomes are)
static int g_planMode; static uint64_t g_planNth, g_planCount; static unsigned g_planDen;
static char g_enabled[MAXK][48]; static unsigned g_nEnabled;
void faultKinds(const std::vector<const char *> &kinds) {
  g_nEnabled = 0; g_planCount = 0;
  unsigned m = next(g_frng) % 100;
  g_planMode = m < 20 ? 0 : m < 60 ? 1 : 2;
  static const unsigned nths[] = {4, 10, 30, 80, 200};
  g_planNth = next(g_frng) % nths[next(g_frng) % 5];
  static const unsigned dens[] = {2, 4, 8, 20, 50, 120};
  g_planDen = dens[next(g_frng) % 6];
  bool all = next(g_frng) % 3 == 0;
  uint64_t mask = next(g_frng);
  unsigned i = 0;
  for (const char *k : kinds) {
    if (g_planMode == 1 || all || (mask >> (i % 64) & 1)) strncpy(g_enabled[g_nEnabled++], k, 47);
    i++;
  }
  if (g_planMode == 1 && !kinds.empty() && next(g_frng) % 2) { // single kind
    strncpy(g_enabled[0], kinds[next(g_frng) % kinds.size()], 47); g_nEnabled = 1;
    g_planNth /= 3;
  }
  g_armed = true;
}
void armFaults(bool on) { g_armed = on; }
bool faultsArmed() { return g_armed; }
static thread_local unsigned t_fired;
unsigned taskFaults() { return t_fired; }
unsigned faultsFired() { return S->fired; }
unsigned faultsFiredOf(const char *kind) { Env env; return counter(S->k, S->nk, MAXK, kind)->b; }
void countFault(const char *kind) { Env env; Counter *c = counter(S->k, S->nk, MAXK, kind); c->a++; c->b++; S->fired++; }
static bool faultImpl(const char *kind) {
  Env env; // no preemption in here: a replay takes another path
  Counter *c = counter(S->k, S->nk, MAXK, kind);
  c->a++;
  uint32_t v;
  if (!replayed(v, 2)) {
    v = 0; bool en = false;
    for (unsigned i = 0; i < g_nEnabled; i++) if (!strcmp(g_enabled[i], kind)) { en = true; break; }
    if (en && g_planMode == 1) v = g_planCount++ == g_planNth;
    else if (en && g_planMode == 2) v = next(g_frng) % g_planDen == 0;
  }
  record(v);
  if (v) { c->b++; S->fired++; t_fired++; ev("FAULT %s", kind); }
  return v;
}
bool fault(const char *kind) { return g_active && g_armed && t_sut && faultImpl(kind); }
bool faultAlways(const char *kind) { return g_active && g_armed && faultImpl(kind); }

bool inSut() { return t_sut; }
Sut::Sut() : prev(t_sut) { t_sut = true; }
Sut::~Sut() { t_sut = prev; }
Env::Env() : prev(t_sut) { t_sut = false; }
Env::~Env() { t_sut = prev; }

uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static void vev(const char *fmt, va_list ap) {
  if (!S) return;
  bool p = t_sut; t_sut = false;
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  S->loghash = hashBytes(buf, n, S->loghash); S->nev++;
  if (S->loglen + n < MAXLOG) { memcpy(S->log + S->loglen, buf, n); S->loglen += n; } else S->logtrunc = true;
  t_sut = p;
}
void ev(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vev(fmt, ap); va_end(ap); }
void op(const char *fmt, ...) { va_list ap; va_start(ap, fmt); S->ops++; vev(fmt, ap); va_end(ap); }
void probe(const char *name) { Env env; counter(S->p, S->np, MAXP, name)->a++; }
void state(uint64_t h) { if (S->nst < MAXST) S->st[S->nst++] = h; }
void state(const std::string &s) { state(hashBytes(s.data(), s.size())); }
void advance(uint64_t ns) { S->ns += ns; }
uint64_t now() { return S->ns; }
void step(uint64_t cap) { if (++S->steps > cap) fail("hang", "no progress within %llu steps", (unsigned long long)cap); }
void fail(const char *cls, const char *fmt, ...) {
  t_sut = false; g_armed = false;
  va_list ap; va_start(ap, fmt);
  if (!S->violated) {
    strncpy(S->vclass, cls, sizeof S->vclass - 1); S->vclass[sizeof S->vclass - 1] = 0;
    vsnprintf(S->vtext, sizeof S->vtext, fmt, ap);
    ev("VIOLATION %s: %s", S->vclass, S->vtext);
    S->violated = 1;
  }
  va_end(ap);
  _exit(0);
}
void endRun() { t_sut = false; S->finished = 1; _exit(0); }
void discard() { t_sut = false; S->discarded = 1; S->finished = 1; _exit(0); }
std::string scratch() { return g_scratch; }
bool verbose() { return g_verbose; }
const std::string &prop() { return g_prop; }
std::string arg(const char *n, const char *d) { for (char **a = g_argv; a && *a; a++) if (!strncmp(*a, "--x-", 4) && !strcmp(*a + 4, n)) return a[1] ? a[1] : d; return d; }

static void wipe(const std::string &d, bool top) {
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (struct dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string f = d + "/" + n; struct stat st;
    if (lstat(f.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0700); wipe(f, false); } else unlink(f.c_str());
  }
  closedir(dp);
  if (!top) rmdir(d.c_str());
}
static void resetShared() {
  S->nch = S->loglen = S->nk = S->np = S->nst = S->fired = 0; S->logtrunc = false;
  S->loghash = 1469598103934665603ull; S->ns = S->steps = S->ops = S->nev = 0;
  S->violated = S->finished = S->discarded = 0; S->vclass[0] = S->vtext[0] = 0;
}
static const Options *g_opt; static std::function<void()> g_run;
static volatile pid_t g_child; static volatile int g_timedOut;
static void onAlarm(int) { g_timedOut = 1; kill(g_child, SIGKILL); }
// The stack of a run starts at the same address whatever the arguments and the
// environment are: addresses decide hash order in some libraries.
static __attribute__((noinline)) void goOn() { g_run(); endRun(); }
static __attribute__((noinline, no_sanitize("address"))) void fixedStack() {
  uintptr_t want = 0x7fffffe00000ull, here = (uintptr_t)__builtin_frame_address(0);
  volatile char *p = nullptr; if (here > want && here - want < (4u << 20)) { p = (volatile char *)__builtin_alloca(here - want); *p = 0; }
  goOn();
}
static void oneRun(uint64_t seed) {
  resetShared(); seedRng(seed);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    setpgid(0, 0); alarm(0); signal(SIGALRM, SIG_DFL);
    struct rlimit rl = {(rlim_t)g_opt->cpuLimit, (rlim_t)g_opt->cpuLimit + 1};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!g_verbose && g_opt->quiet) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
    g_active = true;
    ev("seed-independent start");
    fixedStack();
  }
  // A run that neither ends nor burns its CPU limit (a deadlock on real
  // primitives) is ended after a generous wall-clock bound.
  int st = 0; g_child = pid; g_timedOut = 0; alarm(60);
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  alarm(0);
  if (g_timedOut) st = SIGXCPU;
  kill(-pid, SIGKILL); // strays of the run
  if (!S->violated && !S->finished) {
    S->violated = 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { strcpy(S->vclass, "hang"); strcpy(S->vtext, "the run did not end (CPU limit)"); }
    else if (WIFSIGNALED(st)) { snprintf(S->vclass, sizeof S->vclass, "crash-sig%d", WTERMSIG(st)); snprintf(S->vtext, sizeof S->vtext, "the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
    else { snprintf(S->vclass, sizeof S->vclass, "exit-%d", WEXITSTATUS(st)); snprintf(S->vtext, sizeof S->vtext, "the process ended by itself with status %d", WEXITSTATUS(st)); }
    ev("VIOLATION %s: %s", S->vclass, S->vtext);
  }
}
static void jstr(FILE *f, const char *s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void dumpOne(FILE *f, uint64_t seed) {
  fprintf(f, "{\"seed\":%llu,\"violated\":%d,\"class\":", (unsigned long long)seed, S->violated);
  jstr(f, S->vclass, strlen(S->vclass)); fputs(",\"text\":", f); jstr(f, S->vtext, strlen(S->vtext));
  fprintf(f, ",\"hash\":\"%016llx\",\"ops\":%llu,\"sim_ns\":%llu,\"choices\":[", (unsigned long long)S->loghash, (unsigned long long)S->ops, (unsigned long long)S->ns);
  for (uint32_t i = 0; i < S->nch; i++) fprintf(f, "%s%u", i ? "," : "", S->ch[i]);
  fputs("],\"faults\":{", f);
  for (uint32_t i = 0; i < S->nk; i++) { fputs(i ? "," : "", f); jstr(f, S->k[i].name, strlen(S->k[i].name)); fprintf(f, ":%llu", (unsigned long long)S->k[i].b); }
  fputs("},\"log\":", f); jstr(f, S->log, S->loglen); fputs("}\n", f);
}
int simMain(int argc, char **argv, const Options &o, std::function<void()> warm, std::function<void()> run) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(0xffffffff) != -1 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  unsetenv("SIM_NOASLR");
  uint64_t base = 1, start = 0, stride = 1, maxRuns = 1000000000ull; double tlimit = 10; bool batch = false, haveSeed = false;
  uint64_t seed = 0; const char *out = "", *replay = "", *tmp = "/tmp"; unsigned maxViol = 40; g_argv = argv;
  for (int i = 1; i < argc; i++) {
    const char *a = argv[i]; auto is = [&](const char *n) { return !strcmp(a, n); };
    auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (is("--batch")) batch = true; else if (is("--base")) base = strtoull(val(), 0, 10);
    else if (is("--start")) start = strtoull(val(), 0, 10); else if (is("--stride")) stride = strtoull(val(), 0, 10);
    else if (is("--runs")) maxRuns = strtoull(val(), 0, 10); else if (is("--time")) tlimit = atof(val());
    else if (is("--seed")) { haveSeed = true; seed = strtoull(val(), 0, 10); }
    else if (is("--replay")) replay = val(); else if (is("--out")) out = val(); else if (is("--verbose")) g_verbose = true;
    else if (is("--tmp")) tmp = val(); else if (is("--prop")) g_prop = val(); else if (is("--max-viol")) maxViol = atoi(val());
    else if (!strncmp(a, "--x-", 4)) val();
    else { fprintf(stderr, "bad argument %s\n", a); return 3; }
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  resetShared();
  g_opt = &o; g_run = run;
  if (o.needScratch) {
    // fixed-length path, so that path length never depends on the process id
    char b[512]; snprintf(b, sizeof b, "%s/w%05llu", tmp, (unsigned long long)(start % 100000));
    g_scratch = b; mkdir(b, 0700);
  }
  signal(SIGALRM, onAlarm);
  if (warm) warm();
  const size_t CAP = 64u << 20; g_rep = (uint32_t *)mmap(nullptr, CAP * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!batch) {
    if (*replay) {
      g_replay = true; int fd = open(replay, O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) { perror("replay"); return 3; }
      size_t len = st.st_size + 4096; char *tx = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      size_t got = 0; ssize_t r; while (got < (size_t)st.st_size && (r = read(fd, tx + got, st.st_size - got)) > 0) got += r; close(fd);
      for (char *q = tx, *e; g_nrep < CAP; q = e) { unsigned long v = strtoul(q, &e, 10); if (e == q) break; g_rep[g_nrep++] = v; }
      munmap(tx, len);
    } else if (!haveSeed) return 3;
    oneRun(seed); FILE *f = *out ? fopen(out, "w") : stdout; if (!f) { perror("out"); return 3; } dumpOne(f, seed); fclose(f);
    if (o.needScratch) { wipe(g_scratch, false); }
    return 0;
  }
  // Runs are children of a process of its own that does nothing else, so that
  // each starts from the same memory whatever ran before it.
  int ask[2], ans[2]; if (pipe2(ask, O_CLOEXEC) || pipe2(ans, O_CLOEXEC)) { perror("pipe"); return 3; }
  pid_t z = fork(); if (z < 0) { perror("fork"); return 3; }
  if (z == 0) { close(ask[1]); close(ans[0]); uint64_t sd; char c = 0; while (read(ask[0], &sd, sizeof sd) == (ssize_t)sizeof sd) { oneRun(sd); if (write(ans[1], &c, 1) != 1) break; } _exit(0); }
  close(ask[0]); close(ans[1]); signal(SIGPIPE, SIG_IGN);
  FILE *f = *out ? fopen(out, "w") : stdout; if (!f) { perror("out"); return 3; }
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto el = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9; };
  std::map<std::string, std::pair<uint64_t, uint64_t>> fk; std::map<std::string, uint64_t> pr;
  std::unordered_set<uint64_t> hashes, nontriv, states; std::map<std::string, unsigned> perClass;
  uint64_t runs = 0, simns = 0, ops = 0, evs = 0, disc = 0, decs = 0, sum = 0; unsigned nv = 0;
  std::string sample; uint64_t sampleSeed = 0; size_t bestS = 0;
  fputs("{\"violations\":[", f);
  bool firstV = true;
  for (uint64_t i = start; runs < maxRuns && el() < tlimit; i += stride) {
    uint64_t x = base * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 12345; uint64_t sd = splitmix(x);
    if (o.needScratch) wipe(g_scratch, true);
    char c1; if (write(ask[1], &sd, sizeof sd) != (ssize_t)sizeof sd || read(ans[0], &c1, 1) != 1) { fprintf(stderr, "the process that starts runs ended\n"); return 3; }
    if (const char *h = getenv("SIM_HASHES")) if (*h) fprintf(stderr, "%llu %llu %016llx\n", (unsigned long long)i, (unsigned long long)sd, (unsigned long long)S->loghash);
    runs++; simns += S->ns; ops += S->ops; evs += S->nev; decs += S->nch;
    { uint64_t y = S->loghash ^ (i * 0x9e3779b97f4a7c15ull); sum += splitmix(y); }
    if (S->discarded) disc++;
    for (uint32_t k = 0; k < S->nk; k++) { auto &c = fk[S->k[k].name]; c.first += S->k[k].a; c.second += S->k[k].b; }
    for (uint32_t k = 0; k < S->np; k++) pr[S->p[k].name] += S->p[k].a;
    for (uint32_t k = 0; k < S->nst; k++) states.insert(S->st[k]);
    hashes.insert(S->loghash);
    if (!S->discarded && (S->ops >= 2 || S->fired >= 1)) nontriv.insert(S->loghash);
    if (!S->violated && S->loglen > bestS && S->loglen < 6000 && S->fired && runs < 2000) { sample.assign(S->log, S->loglen); bestS = S->loglen; sampleSeed = sd; }
    if (sample.empty() && S->loglen < 6000) { sample.assign(S->log, S->loglen); sampleSeed = sd; }
    if (S->violated) {
      nv++;
      if (perClass[S->vclass]++ < 4) {
        fprintf(f, "%s{\"index\":%llu,\"seed\":%llu,\"nch\":%u,\"class\":", firstV ? "" : ",", (unsigned long long)i, (unsigned long long)sd, S->nch);
        jstr(f, S->vclass, strlen(S->vclass)); fputs(",\"text\":", f); jstr(f, S->vtext, strlen(S->vtext)); fputs("}", f); firstV = false;
      }
      if (nv >= maxViol) break;
    }
  }
  fprintf(f, "],\"runs\":%llu,\"sim_ns\":%llu,\"ops\":%llu,\"events\":%llu,\"decisions\":%llu,\"discarded\":%llu,\"nviol\":%u,\"hashsum\":\"%016llx\",\"wall\":%.3f,\"distinct\":%zu",
      (unsigned long long)runs, (unsigned long long)simns, (unsigned long long)ops, (unsigned long long)evs, (unsigned long long)decs, (unsigned long long)disc, nv, (unsigned long long)sum, el(), hashes.size());
  fputs(",\"faults\":{", f); bool c = false;
  for (auto &k : fk) { fputs(c ? "," : "", f); c = true; jstr(f, k.first.c_str(), k.first.size()); fprintf(f, ":[%llu,%llu]", (unsigned long long)k.second.first, (unsigned long long)k.second.second); }
  fputs("},\"probes\":{", f); c = false;
  for (auto &k : pr) { fputs(c ? "," : "", f); c = true; jstr(f, k.first.c_str(), k.first.size()); fprintf(f, ":%llu", (unsigned long long)k.second); }
  fprintf(f, "},\"sample_seed\":%llu,\"sample\":", (unsigned long long)sampleSeed); jstr(f, sample.c_str(), sample.size());
  fputs("}\n", f); fclose(f);
  auto dump = [&](const char *suf, std::unordered_set<uint64_t> &s) {
    FILE *g = fopen((std::string(out) + suf).c_str(), "wb"); if (!g) return;
    for (uint64_t v : s) fwrite(&v, 8, 1, g);
    fclose(g);
  };
  close(ask[1]); waitpid(z, nullptr, 0);
  if (*out) { dump(".nt", nontriv); dump(".st", states); }
  if (o.needScratch) wipe(g_scratch, false);
  return 0;
}
} // namespace sim
