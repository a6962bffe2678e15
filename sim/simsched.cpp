#include "simsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {
extern bool t_sut;
namespace {
const int MAXT = 64;
enum St { FREE, RUN, BLOCK, DONE };
struct Task {
  St st = FREE; int go = 0; bool sut = false; Tag tag = TAG_HARNESS; const void *on = nullptr; const char *what = "";
  uint64_t deadline = 0; bool timed = false, timedOut = false, detached = false, joined = false, reaped = false, again = false; pthread_t th = 0;
  std::function<void()> f; void *(*start)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; char name[24] = ""; char *slo = nullptr, *shi = nullptr;
};
Task T[MAXT]; int nT = 0, cur = 0, toReap = -1; bool on = false;
__thread int self = -1;
uint64_t switches, preempts, steps, cap = 3000000, budgetAll, budgetHot; unsigned strat; bool failCreate = false;
extern "C" char __data_start, _end;
template <class F> F next_(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); abort(); } return f; }
#define REAL(name) ([]() { static decltype(&::name) f = nullptr; if (!f) f = next_<decltype(&::name)>(#name); return f; }())
void fwait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
void fwake(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
// How long the task that now gets the processor may run before it is preempted.
void draw() {
  static const unsigned hot[] = {1, 1, 2, 2, 3, 4, 5, 7, 10, 15, 25, 40}, all[] = {1, 2, 5, 12, 30, 80, 200, 500, 1200, 3000, 8000, 20000};
  budgetAll = budgetHot = 0;
  if (strat == 0) return;
  unsigned c = choose(32);
  if (c < (strat == 3 ? 16u : 6u)) return;
  if (strat == 2) { budgetAll = all[c % 12]; return; }
  if (c % 3 == 0 && strat != 1) budgetAll = all[c % 12]; else budgetHot = hot[c % 12];
}
void reap() { // the thread that ended has run its thread-local destructors once it can be joined
  if (toReap < 0) return;
  int r = toReap; toReap = -1; T[r].reaped = true; REAL(pthread_join)(T[r].th, nullptr);
}
void switchTo(int t) {
  if (t == cur) { draw(); return; }
  Task &c = T[cur]; int me = cur; c.sut = t_sut; c.tag = allocTag();
  bool done = c.st == DONE; switches++; cur = t; t_sut = false; ev("run %s", T[t].name);
  fwake(&T[t].go);
  if (done) return;
  fwait(&T[me].go);
  reap(); t_sut = T[me].sut; allocTag(T[me].tag); bool p = t_sut; t_sut = false; draw(); t_sut = p;
}
int pickOther(bool preempt) {
  int r[MAXT], n = 0;
  for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (T[i].st == RUN && !(preempt && i == cur)) r[n++] = i; }
  if (!n) return -1;
  return r[choose(n)];
}
void reschedule() { // the current task cannot go on
  bool p = t_sut; t_sut = false;
  for (;;) {
    int t = pickOther(false);
    if (t >= 0) { t_sut = p; switchTo(t); return; }
    int best = -1;
    for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].timed && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
    if (best < 0) {
      std::string s;
      for (int i = 0; i < nT; i++) if (T[i].st == BLOCK) s += std::string(T[i].name) + " waits for " + T[i].what + "; ";
      fail("deadlock", "no task can go on: %s", s.c_str());
    }
    if (T[best].deadline > now()) advance(T[best].deadline - now());
    T[best].st = RUN; T[best].timedOut = true; T[best].on = nullptr;
  }
}
void point(bool hot) {
  if (++steps > cap) fail("hang", "the tasks did not finish within %llu steps", (unsigned long long)cap);
  if (budgetAll ? --budgetAll : !hot || !budgetHot || --budgetHot) return;
  int e = errno; bool p = t_sut; t_sut = false;
  int t = pickOther(true);
  if (t < 0) { draw(); t_sut = p; }
  else { preempts++; t_sut = p; switchTo(t); }
  errno = e;
}
void finish(void *ret) {
  Task &c = T[self]; t_sut = false; c.ret = ret; c.st = DONE;
  wakeOn(&c, true); int me = self; self = -1; cur = me; toReap = me;
  int e = 0; (void)e; reschedule();
}
void *body(void *a) {
  self = (int)(long)a; Task &c = T[self]; fwait(&c.go); reap();
  pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); c.slo = (char *)lo; c.shi = c.slo + sz;
  t_sut = c.sut; allocTag(c.tag); { bool p = t_sut; t_sut = false; draw(); t_sut = p; }
  void *r = nullptr;
  try { if (c.start) r = c.start(c.arg); else c.f(); }
  catch (std::exception &x) { t_sut = false; fail("uncaught-exception", "%s ended with an exception: %s", c.name, x.what()); }
  finish(r); return r;
}
int newTask() {
  for (int i = 1; i < nT; i++) if (T[i].again && T[i].st == DONE && T[i].joined && T[i].reaped) { T[i] = Task(); return i; }
  if (nT >= MAXT) fail("too-many-tasks", "more than %d tasks", MAXT);
  return nT++;
}
int launch(int i) {
  Task &c = T[i]; c.st = RUN; c.sut = t_sut; c.tag = allocTag();
  bool p = t_sut; t_sut = false;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 19);
  int rc = REAL(pthread_create)(&c.th, &a, body, (void *)(long)i);
  pthread_attr_destroy(&a); t_sut = p;
  if (rc) fail("harness-thread", "no thread: %d", rc);
  return i;
}
// what has been touched by whom, by 8-byte granule
struct Gran { uintptr_t a; uint8_t who; uint8_t wr, sh; };
const unsigned GCAP = 1 << 20; Gran G[GCAP]; unsigned gN;
bool touched(uintptr_t a, bool wr) {
  uintptr_t k = a >> 3; unsigned i = (k * 0x9e3779b97f4a7c15ull) >> 44;
  for (;; i = (i + 1) & (GCAP - 1)) {
    Gran &g = G[i];
    if (!g.a) { if (gN > GCAP * 3 / 4) return false; gN++; g.a = k; g.who = cur + 1; g.wr = wr; return false; }
    if (g.a == k) { if (g.who != cur + 1) { if (g.who && (g.wr || wr)) g.sh = 1; g.who = cur + 1; } g.wr |= wr; return g.sh; }
  }
  return false;
}
// A new block has not been touched, whatever was at its address before: where
// the allocator puts a block must not matter.
void fresh(const void *p, size_t n) {
  uintptr_t k = (uintptr_t)p >> 3, e = ((uintptr_t)p + (n < 32768 ? n : 32768) + 7) >> 3;
  for (; k < e; k++) for (unsigned i = (k * 0x9e3779b97f4a7c15ull) >> 44; G[i].a; i = (i + 1) & (GCAP - 1)) if (G[i].a == k) { G[i].who = 0; G[i].wr = G[i].sh = 0; break; }
}
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
void access(const void *p, size_t n, bool wr) {
  if (!t_sut) return;
  if (__asan_region_is_poisoned && __asan_region_is_poisoned((void *)p, n)) fail("memory-error", "%s of %zu bytes outside any live block by the code under test", wr ? "a write" : "a read", n);
  if (!on || self < 0) return;
  Task &c = T[self];
  if ((char *)p >= c.slo && (char *)p < c.shi) return; // own stack
  bool hot = (char *)p >= &__data_start && (char *)p < &_end;
  if (touched((uintptr_t)p, wr)) hot = true;
  point(hot);
}
bool active_() { return on && self >= 0; }
} // namespace
bool schedOn() { return on; }
int taskSelf() { return self; }
uint64_t schedSwitches() { return switches; }
uint64_t schedPreemptions() { return preempts; }
void schedStepCap(uint64_t n) { cap = n; }
void onThreadCreateFail(bool b) { failCreate = b; }
unsigned tasksCreated() { return nT; }
void schedStart() {
  mallopt(M_ARENA_MAX, 1); onFresh(fresh);
  nT = 1; cur = 0; self = 0; T[0].st = RUN; strcpy(T[0].name, "main"); T[0].th = pthread_self(); on = true; steps = 0;
  pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); T[0].slo = (char *)lo; T[0].shi = T[0].slo + sz;
  strat = choose(5); draw();
}
void schedAbandon() { on = false; self = -1; }
void schedFinish() { taskJoinAll(); on = false; self = -1; }
int taskSpawn(const char *name, std::function<void()> f) {
  int i = newTask(); snprintf(T[i].name, sizeof T[i].name, "%s", name); T[i].f = std::move(f); launch(i); yieldPoint("spawn"); return i;
}
void taskJoin(int t) { while (T[t].st != DONE) blockOn(&T[t], "the end of a task"); reap(); }
void taskJoinAll() { for (int i = 1; i < nT; i++) taskJoin(i); }
void taskJoinAllBut(const char *prefix) { for (int i = 1; i < nT; i++) if (!*prefix || strncmp(T[i].name, prefix, strlen(prefix))) taskJoin(i); }
void yieldPoint(const char *) { if (active_()) point(true); }
void blockOn(const void *o, const char *what) { Task &c = T[self]; c.st = BLOCK; c.on = o; c.what = what; c.timed = false; int e = errno; reschedule(); errno = e; }
bool blockOnUntil(const void *o, uint64_t d, const char *what) {
  Task &c = T[self]; c.st = BLOCK; c.on = o; c.what = what; c.timed = true; c.timedOut = false; c.deadline = d; int e = errno; reschedule(); errno = e; c.timed = false; return !c.timedOut;
}
void wakeOn(const void *o, bool all) {
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].on == o && o) w[n++] = i;
  if (!n) return;
  if (all) { for (int k = 0; k < n; k++) { T[w[k]].st = RUN; T[w[k]].on = nullptr; } return; }
  bool p = t_sut; t_sut = false; int k = choose(n); t_sut = p; T[w[k]].st = RUN; T[w[k]].on = nullptr;
}
void sleepUntil(uint64_t t) { static char never; if (t > now()) blockOnUntil(&never, t, "a timer"); else yieldPoint("sleep"); }
namespace {
// ---- synchronisation objects, by address
struct Mx { const void *a; int owner; unsigned depth; int readers; };
const unsigned MXN = 4096; Mx M[MXN]; unsigned nM;
Mx *mx(const void *a) {
  for (unsigned i = 0; i < nM; i++) if (M[i].a == a) return &M[i];
  for (unsigned i = 0; i < nM; i++) if (M[i].owner < 0 && !M[i].readers && M[i].depth == 0 && !M[i].a) { M[i].a = a; return &M[i]; }
  if (nM >= MXN) fail("harness-locks", "too many locks");
  M[nM] = {a, -1, 0, 0}; return &M[nM++];
}
void forget(const void *a) { for (unsigned i = 0; i < nM; i++) if (M[i].a == a) { M[i] = {nullptr, -1, 0, 0}; } }
int kind(pthread_mutex_t *m) { return m->__data.__kind & 3; } // 0 normal 1 recursive 2 errorcheck
bool lockMx(pthread_mutex_t *m, bool wait, uint64_t deadline, int &rc) {
  point(true); Mx *x = mx(m); rc = 0;
  if (x->owner == self) {
    if (kind(m) == 1) { x->depth++; return true; }
    if (kind(m) == 2) { rc = wait ? EDEADLK : EBUSY; return false; }
    if (!wait) { rc = EBUSY; return false; }
  }
  while (x->owner >= 0) {
    if (!wait) { rc = EBUSY; return false; }
    if (deadline) { if (!blockOnUntil(m, deadline, "a lock")) { rc = ETIMEDOUT; return false; } } else blockOn(m, "a lock");
    x = mx(m);
  }
  x->owner = self; x->depth = 1; return true;
}
int unlockMx(pthread_mutex_t *m) {
  Mx *x = mx(m);
  if (x->owner != self) { if (kind(m)) return EPERM; if (x->owner < 0) return 0; }
  if (--x->depth) return 0;
  x->owner = -1; wakeOn(m, true); point(true); return 0;
}
uint64_t absNs(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
} // namespace
} // namespace sim
using namespace sim;
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!active_()) return REAL(pthread_create)(t, a, f, arg);
  if (failCreate && fault("thread-create-fails")) return EAGAIN;
  int i = newTask(); T[i].start = f; T[i].arg = arg; snprintf(T[i].name, sizeof T[i].name, "t%d", i);
  if (a) { int d; pthread_attr_getdetachstate(a, &d); T[i].detached = d == PTHREAD_CREATE_DETACHED; }
  launch(i); *t = T[i].th; yieldPoint("create"); return 0;
}
int pthread_join(pthread_t t, void **r) {
  if (!active_()) return REAL(pthread_join)(t, r);
  for (int i = nT - 1; i > 0; i--) if (T[i].th == t && !T[i].joined) { taskJoin(i); T[i].joined = true; if (r) *r = T[i].ret; return 0; }
  return ESRCH;
}
int pthread_detach(pthread_t t) {
  if (!active_()) return REAL(pthread_detach)(t);
  for (int i = nT - 1; i > 0; i--) if (T[i].th == t && !T[i].joined) { T[i].joined = T[i].detached = true; return 0; }
  return ESRCH;
}
void pthread_exit(void *r) { if (active_() && self > 0) { finish(r); } REAL(pthread_exit)(r); abort(); }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!active_()) return on ? 0 : REAL(pthread_mutex_lock)(m); int rc; lockMx(m, true, 0, rc); return rc; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!active_()) return on ? 0 : REAL(pthread_mutex_trylock)(m); int rc; lockMx(m, false, 0, rc); return rc; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!active_()) return on ? 0 : REAL(pthread_mutex_timedlock)(m, t); int rc; lockMx(m, true, absNs(t) + 1, rc); return rc; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!active_()) return on ? 0 : REAL(pthread_mutex_unlock)(m); return unlockMx(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (active_()) { forget(m); return 0; } return on ? 0 : REAL(pthread_mutex_destroy)(m); }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return active_() ? (memset(c, 0, sizeof *c), 0) : REAL(pthread_cond_init)(c, a); }
int pthread_cond_destroy(pthread_cond_t *c) { return on ? 0 : REAL(pthread_cond_destroy)(c); }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t d) {
  Mx *x = mx(m); unsigned depth = x->depth; x->owner = -1; x->depth = 0; wakeOn(m, true); int rc = 0;
  bool spurious; { bool p = t_sut; t_sut = true; spurious = fault("spurious-wakeup"); t_sut = p; }
  if (spurious) point(true);
  else if (d) { if (!blockOnUntil(c, d, "a condition")) rc = ETIMEDOUT; }
  else blockOn(c, "a condition");
  int r; lockMx(m, true, 0, r); mx(m)->depth = depth; return rc;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return active_() ? condWait(c, m, 0) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return active_() ? condWait(c, m, absNs(t) + 1) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return active_() ? condWait(c, m, absNs(t) + 1) : REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t *c) { if (!active_()) return on ? 0 : REAL(pthread_cond_signal)(c); wakeOn(c, false); point(true); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!active_()) return on ? 0 : REAL(pthread_cond_broadcast)(c); wakeOn(c, true); point(true); return 0; }
static int rwl(pthread_rwlock_t *l, bool wr, bool wait) {
  point(true);
  for (;;) {
    Mx *x = mx(l);
    if (wr ? x->owner < 0 && !x->readers : x->owner < 0) { if (wr) { x->owner = self; x->depth = 1; } else x->readers++; return 0; }
    if (!wait) return EBUSY;
    blockOn(l, "a read-write lock");
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return active_() ? rwl(l, false, true) : on ? 0 : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return active_() ? rwl(l, true, true) : on ? 0 : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return active_() ? rwl(l, false, false) : on ? 0 : REAL(pthread_rwlock_tryrdlock)(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return active_() ? rwl(l, true, false) : on ? 0 : REAL(pthread_rwlock_trywrlock)(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active_()) return on ? 0 : REAL(pthread_rwlock_unlock)(l);
  Mx *x = mx(l);
  if (x->owner == self) { x->owner = -1; x->depth = 0; } else if (x->readers) x->readers--;
  wakeOn(l, true); point(true); return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (active_()) { forget(l); return 0; } return on ? 0 : REAL(pthread_rwlock_destroy)(l); }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!active_()) return REAL(pthread_once)(o, f);
  point(true);
  for (;;) { // 2 is what glibc leaves when done
    if ((*o & 2) != 0) return 0;
    Mx *x = mx(o);
    if (x->owner < 0) { x->owner = self; x->depth = 1; break; }
    blockOn(o, "a once");
  }
  try { f(); } catch (...) { Mx *x = mx(o); x->owner = -1; x->depth = 0; wakeOn(o, true); throw; }
  *o = 2; Mx *x = mx(o); x->owner = -1; x->depth = 0; wakeOn(o, true); point(true); return 0;
}
int __cxa_guard_acquire(long long *g) {
  char *c = (char *)g;
  if (c[0]) return 0;
  if (!active_()) { c[1] = 1; return 1; }
  point(true);
  for (;;) {
    if (c[0]) return 0;
    if (!c[1]) { c[1] = 1; return 1; }
    blockOn(g, "the initialisation of a static");
  }
}
void __cxa_guard_release(long long *g) { char *c = (char *)g; c[1] = 0; c[0] = 1; if (active_()) { wakeOn(g, true); point(true); } }
void __cxa_guard_abort(long long *g) { ((char *)g)[1] = 0; if (active_()) { wakeOn(g, true); point(true); } }
int sched_yield(void) { if (!active_()) return REAL(sched_yield)(); bool p = t_sut; t_sut = false; int t = pickOther(true); t_sut = p; if (t >= 0) switchTo(t); if (++steps > cap) fail("hang", "the tasks did not finish within %llu steps", (unsigned long long)cap); return 0; }
int usleep(useconds_t u) { if (!active_()) return REAL(usleep)(u); sleepUntil(now() + u * 1000ull); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!active_()) return REAL(nanosleep)(t, r); sleepUntil(now() + absNs(t)); return 0; }
// ---- memory accesses of instrumented code (clang/gcc -fsanitize=thread, without its runtime)
#define ACC(n) \
  void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  void __tsan_read_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read1_pc(void *p, void *) { access(p, 1, false); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
static void rangeAcc(const void *p, size_t n, bool w) { for (size_t i = 0; i < n; i += n > 256 ? n / 16 : 8) access((const char *)p + i, n - i < 8 ? n - i : 8, w); }
extern "C" {
int __real_fputs(const char *, FILE *); int __real_fputc(int, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_puts(const char *); int __real_fflush(FILE *); int __real_vfprintf(FILE *, const char *, va_list);
static void io(const char *w) { if (t_sut) yieldPoint(w); }
int __wrap_fputs(const char *s, FILE *f) { io("fputs"); return __real_fputs(s, f); }
int __wrap_fputc(int c, FILE *f) { io("fputc"); return __real_fputc(c, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { io("fwrite"); return __real_fwrite(p, a, b, f); }
int __wrap_puts(const char *s) { io("puts"); return __real_puts(s); }
int __wrap_fflush(FILE *f) { io("fflush"); return __real_fflush(f); }
int __wrap_vfprintf(FILE *f, const char *s, va_list a) { io("fprintf"); return __real_vfprintf(f, s, a); }
int __wrap_fprintf(FILE *f, const char *s, ...) { io("fprintf"); va_list a; va_start(a, s); int r = __real_vfprintf(f, s, a); va_end(a); return r; }
// strings: the library is not instrumented
static void str(const void *p, bool wr) { if (t_sut) access(p, 1, wr); }
int __real_vsnprintf(char *, size_t, const char *, va_list); size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t); char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t); char *__real_strcat(char *, const char *);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) { if (n) str(b, true); int r = __real_vsnprintf(b, n, f, a); if (n) str(b, true); return r; }
int __wrap_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(b, n, f, a); va_end(a); return r; }
size_t __wrap_strlen(const char *s) { str(s, false); return __real_strlen(s); }
int __wrap_strcmp(const char *a, const char *b) { str(a, false); str(b, false); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { str(a, false); str(b, false); return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { str(s, false); str(d, true); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { str(s, false); str(d, true); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { str(s, false); str(d, true); return __real_strcat(d, s); }
}
void __tsan_read_range(void *p, size_t n) { rangeAcc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { rangeAcc(p, n, true); }
static bool tear(size_t n) { return on && self >= 0 && t_sut && n >= 16; }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (!tear(n)) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
  size_t c = n > 512 ? n / 16 : 16; // in pieces, as the hardware may
  for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; access((const char *)s + i, k, false); access((char *)d + i, k, true); memcpy((char *)d + i, (const char *)s + i, k); }
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access(d, n, true); return memset(d, v, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
#define ATOM(n, T_) \
  T_ __tsan_atomic##n##_load(const volatile T_ *a, int) { yieldPoint("atomic"); return *a; } \
  void __tsan_atomic##n##_store(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); *a = v; } \
  T_ __tsan_atomic##n##_exchange(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = v; return o; } \
  T_ __tsan_atomic##n##_fetch_add(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = o + v; return o; } \
  T_ __tsan_atomic##n##_fetch_sub(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = o - v; return o; } \
  T_ __tsan_atomic##n##_fetch_and(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = o & v; return o; } \
  T_ __tsan_atomic##n##_fetch_or(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = o | v; return o; } \
  T_ __tsan_atomic##n##_fetch_xor(volatile T_ *a, T_ v, int) { yieldPoint("atomic"); T_ o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int, int) { yieldPoint("atomic"); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int m, int k) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, m, k); } \
  T_ __tsan_atomic##n##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int, int) { yieldPoint("atomic"); T_ o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yieldPoint("fence"); }
void __tsan_atomic_signal_fence(int) {}
// ---- OpenMP (GNU interface)
}
namespace {
struct Team { int n, tid; Team *up; bool active() const { return n > 1 || (up && up->active()); } };
__thread Team *team;
}
extern "C" {
__attribute__((weak)) int sim_omp_threads = 0;   // default team size
__attribute__((weak)) int sim_omp_nested = 0;    // nested regions get threads of their own
__attribute__((weak)) int sim_omp_fewer = 0;     // the system may give fewer threads than asked for
__attribute__((weak)) int sim_omp_limit = 16;    // the system never gives more than this
int omp_get_thread_num(void) { return team ? team->tid : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return sim_omp_threads > 0 ? sim_omp_threads : 4; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team && team->active(); }
void omp_set_num_threads(int n) { sim_omp_threads = n; }
double omp_get_wtime(void) { return now() * 1e-9; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (n == 0) n = omp_get_max_threads();
  if (team && team->active() && !sim_omp_nested) n = 1;
  if (!active_()) n = 1;
  if (n > 16) n = 16;
  if (sim_omp_limit > 0 && n > (unsigned)sim_omp_limit) n = sim_omp_limit;
  if (n > 1 && sim_omp_fewer) { bool p = t_sut; t_sut = true; if (fault("fewer-threads")) { t_sut = false; n = 1 + choose(n - 1); } t_sut = p; }
  int id[16]; Team *up = team; bool p = t_sut;
  for (unsigned i = 1; i < n; i++) {
    char nm[24]; snprintf(nm, sizeof nm, "%.14s.o%u", T[self].name, i); t_sut = false;
    int k = newTask(); snprintf(T[k].name, sizeof T[k].name, "%s", nm); T[k].again = true;
    T[k].f = [=] { bool q = t_sut; t_sut = false; Team *t = new Team{(int)n, (int)i, up}; team = t; t_sut = q; fn(data); t_sut = false; team = nullptr; delete t; };
    t_sut = p; launch(k); id[i] = k; yieldPoint("omp");
  }
  Team t{(int)n, 0, up}; team = &t; fn(data); team = up;
  for (unsigned i = 1; i < n; i++) { taskJoin(id[i]); T[id[i]].joined = true; }
}
static pthread_mutex_t ompCrit = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&ompCrit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&ompCrit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock((pthread_mutex_t *)p); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&ompCrit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&ompCrit); }
bool GOMP_single_start(void) { return omp_get_thread_num() == 0; }
void GOMP_barrier(void) { fail("harness-omp", "GOMP_barrier is not simulated"); }
// ---- C library functions with state shared by the whole process
#define SHARED0(ret, name) ret name(void) { yieldPoint(#name); return REAL(name)(); }
char *getenv(const char *n) { if (!active_()) return REAL(getenv)(n); yieldPoint("getenv"); char *r = REAL(getenv)(n); return r; }
int setenv(const char *n, const char *v, int o) { if (!active_()) return REAL(setenv)(n, v, o); yieldPoint("setenv"); int r = REAL(setenv)(n, v, o); yieldPoint("setenv"); return r; }
int unsetenv(const char *n) { if (!active_()) return REAL(unsetenv)(n); yieldPoint("unsetenv"); int r = REAL(unsetenv)(n); yieldPoint("unsetenv"); return r; }
struct tm *localtime(const time_t *t) { if (!active_()) return REAL(localtime)(t); yieldPoint("localtime"); struct tm *r = REAL(localtime)(t); yieldPoint("localtime"); return r; }
struct tm *gmtime(const time_t *t) { if (!active_()) return REAL(gmtime)(t); yieldPoint("gmtime"); struct tm *r = REAL(gmtime)(t); yieldPoint("gmtime"); return r; }
char *strtok(char *s, const char *d) { if (!active_()) return REAL(strtok)(s, d); yieldPoint("strtok"); return REAL(strtok)(s, d); }
char *strerror(int e) { if (!active_()) return REAL(strerror)(e); yieldPoint("strerror"); return REAL(strerror)(e); }
}
