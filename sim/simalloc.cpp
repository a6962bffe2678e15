// Allocation seam: malloc family (linked with --wrap) and operator new/delete.
// Tracks live blocks, injects allocation failures into the code under test,
// fills fresh blocks with a pattern and reports invalid releases.
#include "simkit.h"
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <new>
#include <cstdio>

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
}
namespace sim {
namespace {
struct Ent { void *p; size_t n; uint8_t tag; uint8_t live; };
const unsigned CAP = 1 << 17, MAXE = 1 << 16;
uint32_t tab[CAP]; // index into ents + 1
Ent ents[MAXE]; uint32_t seqNo; size_t liveCnt[4]; bool on; thread_local Tag g_tag = TAG_HARNESS; bool f_malloc = true, f_new = false;
// one task runs at a time, so no lock is needed here
void (*g_fresh)(const void *, size_t); // told of every new block
unsigned slot(const void *p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return x & (CAP - 1); }
// One entry per allocation; the table maps an address to its latest one.
Ent *find(const void *p) {
  for (unsigned i = slot(p); tab[i]; i = (i + 1) & (CAP - 1)) if (ents[tab[i]].p == p) return &ents[tab[i]];
  return nullptr;
}
void note(void *p, size_t n, int) {
  if (!p) return;
  Tag t = inSut() ? TAG_SUT : g_tag;
  if (seqNo + 1 >= MAXE) { fail("too-many-allocations", "more than %u allocations in one run", MAXE); }
  uint32_t e = ++seqNo; unsigned i = slot(p);
  while (tab[i] && ents[tab[i]].p != p) i = (i + 1) & (CAP - 1);
  if (g_fresh) g_fresh(p, n);
  tab[i] = e; ents[e].p = p; ents[e].n = n; ents[e].tag = t; ents[e].live = 1; liveCnt[t]++;
}
void gone(void *p) { // before the block is really released
  Ent *e = find(p);
  if (e && e->live) { e->live = 0; liveCnt[e->tag]--; }
}
bool allocFault(const char *k, bool en) { return on && en && inSut() && fault(k); }
void fill(void *p, size_t n) { if (p && on && inSut()) memset(p, 0xbe, n < 65536 ? n : 65536); }
} // namespace
void onFresh(void (*f)(const void *, size_t)) { g_fresh = f; }
void allocTag(Tag t) { g_tag = t; }
Tag allocTag() { return g_tag; }
TagScope::TagScope(Tag t) : prev(g_tag) { g_tag = t; }
TagScope::~TagScope() { g_tag = prev; }
void ledgerStart() { on = true; }
void ledgerStop() { on = false; }
void allocFaults(bool m, bool n) { f_malloc = m; f_new = n; }
size_t ledgerLive(int mask) { size_t c = 0; for (int t = 0; t < 4; t++) if (mask >> t & 1) c += liveCnt[t]; return c; }
uint32_t ledgerMark() { return seqNo; }
std::string ledgerDescribe(int mask, uint32_t after) {
  std::string s; char b[96]; int k = 0;
  for (uint32_t i = after + 1; i <= seqNo && k < 8; i++) {
    Ent *m = &ents[i]; if (!m->live || !(mask >> m->tag & 1)) continue;
    snprintf(b, sizeof b, "[#%u %zu bytes by %s]", i, m->n, m->tag == TAG_SUT ? "code under test" : m->tag == TAG_MODEL ? "model" : "harness");
    s += b; k++;
  }
  return s;
}
bool ledgerIsLive(const void *p) { Ent *e = find(p); return e && e->live; }
size_t ledgerSize(const void *p) { Ent *e = find(p); return e && e->live ? e->n : 0; }
void ledgerForget(const void *p) { Ent *e = find(p); if (e && e->live) { e->live = 0; liveCnt[e->tag]--; } }
} // namespace sim
using namespace sim;
extern "C" {
void *__wrap_malloc(size_t n) {
  if (allocFault("malloc-fails", f_malloc)) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n);
  if (on) { fill(p, n); note(p, n, 0); }
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (allocFault("malloc-fails", f_malloc)) { errno = ENOMEM; return nullptr; }
  void *p = __real_calloc(a, b);
  if (on) note(p, a * b, 0);
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (allocFault("malloc-fails", f_malloc)) { errno = ENOMEM; return nullptr; }
  if (on && q) gone(q);
  void *p = __real_realloc(q, n);
  if (on) note(p, n, 0);
  return p;
}
int __wrap_posix_memalign(void **r, size_t a, size_t n) {
  if (allocFault("malloc-fails", f_malloc)) return ENOMEM;
  int rc = __real_posix_memalign(r, a, n);
  if (!rc && on) { fill(*r, n); note(*r, n, 0); }
  return rc;
}
void *__wrap_aligned_alloc(size_t a, size_t n) {
  if (allocFault("malloc-fails", f_malloc)) { errno = ENOMEM; return nullptr; }
  void *p = __real_aligned_alloc(a, n);
  if (on) { fill(p, n); note(p, n, 0); }
  return p;
}
void __wrap_free(void *p) {
  if (p && on) gone(p);
  int e = errno;
  __real_free(p);
  errno = e;
}
char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char *__wrap_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
}
static void *newImpl(size_t n, bool nothrow) {
  if (allocFault("new-fails", f_new)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (on) { fill(p, n); note(p, n, 1); }
  return p;
}
static void delImpl(void *p) { if (p) { if (on) gone(p); __real_free(p); } }
void *operator new(size_t n) { return newImpl(n, false); }
void *operator new[](size_t n) { return newImpl(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return newImpl(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return newImpl(n, true); }
void operator delete(void *p) noexcept { delImpl(p); }
void operator delete[](void *p) noexcept { delImpl(p); }
void operator delete(void *p, size_t) noexcept { delImpl(p); }
void operator delete[](void *p, size_t) noexcept { delImpl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { delImpl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { delImpl(p); }
void *sim_new_aligned(size_t n, size_t a) {
  void *p = nullptr; if (__real_posix_memalign(&p, a < sizeof(void *) ? sizeof(void *) : a, n ? n : 1)) throw std::bad_alloc();
  if (on) { fill(p, n); note(p, n, 1); }
  return p;
}
void *operator new(size_t n, std::align_val_t a) { return sim_new_aligned(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return sim_new_aligned(n, (size_t)a); }
void operator delete(void *p, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void *p, std::align_val_t) noexcept { delImpl(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { delImpl(p); }
