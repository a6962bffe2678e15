// P04: external constants. Real: OMExternalConstant.c (both variants), real
// files in a scratch directory. Stub: failures of every system call it makes.
#include "simkit.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using sim::fail;
extern "C" {
bool omLoadConstantData(void **, char *, int64_t, int64_t); void omGetExternalConstantAddr(void **, void **, int64_t); bool omUnloadConstantData(void **, int64_t);
bool zos_omLoadConstantData(void **, char *, int64_t, int64_t); void zos_omGetExternalConstantAddr(void **, void **, int64_t); bool zos_omUnloadConstantData(void **, int64_t);
}
namespace {
std::set<uintptr_t> pages; std::set<int> fds;
bool sut() { return sim::active() && sim::inSut(); }
// a file of more than a gigabyte, whose content is zero but for some markers; reading it touches these only
const int64_t HUGE_SIZE = (1ll << 30) + 12345; int g_huge = -1; int64_t g_hugePos; const char *g_watch;
const int64_t MARK[] = {0, 1, 4095, 4096, (1ll << 30) - 1, 1ll << 30, (1ll << 30) + 1, (1ll << 30) + 4096, HUGE_SIZE - 1};
ssize_t readHuge(void *b, size_t n, int64_t off) {
  if (off >= HUGE_SIZE) return 0; if ((int64_t)n > HUGE_SIZE - off) n = HUGE_SIZE - off; if (n > 0x7ffff000) n = 0x7ffff000;
  if (n > 8192 && sim::chance(1, 4)) n = 4096 + sim::choose(n - 4096);
  for (int64_t m : MARK) if (m >= off && m < off + (int64_t)n) ((char *)b)[m - off] = 'M';
  return n;
}
int openImpl(int dfd, const char *p, int fl, mode_t m) {
  if (sim::fault("open-fails")) { static const int es[] = {EACCES, EMFILE, ENFILE, EIO}; errno = es[sim::choose(4)]; return -1; }
  sim::Env e; int fd = (int)openat(dfd, p, fl, m); if (fd >= 0) fds.insert(fd); if (fd >= 0 && g_watch) { g_huge = fd; g_hugePos = 0; } return fd;
}
void addPages(void *a, size_t n) { for (uintptr_t p = (uintptr_t)a & ~4095ul; p < (uintptr_t)a + n; p += 4096) pages.insert(p); }
} // namespace
extern "C" {
int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_fstat(int, struct stat *); off_t __real_lseek(int, off_t, int);
int __real_stat(const char *, struct stat *);
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); if (!sut()) return __real_open(p, fl, m); return openImpl(AT_FDCWD, p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); if (!sut()) return __real_open(p, fl, m); return openImpl(AT_FDCWD, p, fl, m); }
int __wrap_close(int fd) {
  if (!sut()) return __real_close(fd);
  if (!fds.erase(fd)) fail("bad-close", "a descriptor that the load did not open (or already closed) was closed");
  int rc = __real_close(fd);
  if (sim::fault("close-fails")) { errno = EIO; return -1; }
  return rc;
}
ssize_t readImpl(int fd, void *b, size_t n, off_t off, bool pos) {
  if (fd == g_huge && n) { sim::Env e; sim::step(5000); ssize_t r = readHuge(b, n, pos ? off : g_hugePos); if (!pos) g_hugePos += r; return r; }
  if (sim::fault("read-fails")) { errno = EIO; return -1; }
  if (sim::fault("read-interrupted")) { errno = EINTR; return -1; }
  if (n > 1 && sim::fault("read-short")) n = 1 + sim::choose(n - 1 < 1000 ? n - 1 : 1000);
  return pos ? __real_pread(fd, b, n, off) : __real_read(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return sut() ? readImpl(fd, b, n, 0, false) : __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return sut() ? readImpl(fd, b, n, o, true) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return sut() ? readImpl(fd, b, n, o, true) : __real_pread(fd, b, n, o); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  if (!sut()) return __real_mmap(a, n, p, f, fd, o);
  if (sim::fault("mmap-fails")) { errno = sim::choose(2) ? ENOMEM : ENODEV; return MAP_FAILED; }
  void *r = __real_mmap(a, n, p, f, fd, o);
  if (r != MAP_FAILED) { sim::Env e; addPages(r, n); }
  return r;
}
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_munmap(void *a, size_t n) {
  if (!sut()) return __real_munmap(a, n);
  sim::Env e;
  for (uintptr_t p = (uintptr_t)a & ~4095ul; p < (uintptr_t)a + n; p += 4096) if (!pages.erase(p)) fail("bad-unmap", "memory that is not mapped by a load was unmapped");
  return __real_munmap(a, n);
}
int __wrap_fstat(int fd, struct stat *st) { if (sut() && sim::fault("stat-fails")) { errno = EIO; return -1; } return __real_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __wrap_stat(const char *p, struct stat *st) { if (sut() && sim::fault("stat-fails")) { errno = EIO; return -1; } return __real_stat(p, st); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (sut() && fd == g_huge) { off_t r = __real_lseek(fd, o, w); g_hugePos = r; return r; } if (sut() && sim::fault("seek-fails")) { errno = EIO; return -1; } return __real_lseek(fd, o, w); }
}
namespace {
bool zos;
bool load(void **a, char *f, int64_t n, int64_t le) { sim::Sut s; return zos ? zos_omLoadConstantData(a, f, n, le) : omLoadConstantData(a, f, n, le); }
void addr(void **o, void **b, int64_t off) { sim::Sut s; zos ? zos_omGetExternalConstantAddr(o, b, off) : omGetExternalConstantAddr(o, b, off); }
bool unload(void **a, int64_t n) { sim::Sut s; return zos ? zos_omUnloadConstantData(a, n) : omUnloadConstantData(a, n); }
struct File { bool exists; std::string data; };
std::map<std::string, File> fs; // by path relative to scratch
void put(const std::string &rel, int64_t len, unsigned salt) {
  File f; f.exists = true; for (int64_t i = 0; i < len; i++) f.data += (char)((i * 31 + salt * 7 + (i >> 8)) & 0xff);
  fs[rel] = f; FILE *h = fopen(rel.c_str(), "w"); fwrite(f.data.data(), 1, f.data.size(), h); fclose(h);
}
struct Slot { void *base; std::string content; int64_t size; std::map<int64_t, void *> addrs; };
void run() {
  sim::Env env; sim::faultKinds({"open-fails", "close-fails", "read-fails", "read-interrupted", "read-short", "mmap-fails", "stat-fails", "seek-fails", "malloc-fails"});
  zos = sim::chance(1, 2); if (zos) sim::probe("malloc/read variant"); else sim::probe("mmap variant");
  if (chdir(sim::scratch().c_str())) return;
  for (const char *d : {"one", "two", "cwd"}) mkdir(d, 0700);
  if (chdir("cwd")) return;
  sim::ledgerStart(); sim::allocFaults(true, false);
  const int NF = 3; static const char *fn[NF] = {"a.bin", "weights.data", "c"}; int64_t sizes[NF]; static const int64_t sz[] = {1, 100, 4095, 4096, 4097, 9000};
  unsigned salt = 0; static const char *dirs[] = {"../one", "../two", "."};
  for (int i = 0; i < NF; i++) {
    sizes[i] = sz[sim::choose(6)];
    for (const char *d : dirs) { int k = sim::choose(6); int64_t len = k < 3 ? sizes[i] : k == 3 ? -1 : k == 4 ? (int64_t)sim::choose(sizes[i]) : sizes[i] + 1 + (int64_t)sim::choose(5000); if (len >= 0) put(std::string(d) + "/" + fn[i], len, ++salt); }
  }
  Slot s[NF]; for (auto &x : s) x.base = nullptr;
  std::string dir; bool dirSet = false; auto setDir = [&](int k) { dirSet = k > 0; if (k) { dir = dirs[(k - 1) % 3]; if (k == 4) dir = "../missing"; setenv("OM_CONSTANT_PATH", dir.c_str(), 1); } else unsetenv("OM_CONSTANT_PATH"); };
  setDir(sim::choose(5));
  int n = 2 + sim::choose(12); size_t heap0 = sim::ledgerLive(1 << sim::TAG_SUT);
  for (int k = 0; k < n; k++) {
    int i = sim::choose(NF); Slot &x = s[i];
    switch (sim::choose(7)) {
    case 0: case 1: case 2: {
      int bad = sim::choose(12); // 1: wrong byte order, 2: zero size
      int64_t want = bad == 2 ? 0 : sizes[i], le = bad == 1 ? 0 : 1;
      sim::op("load %d size %ld dir %s%s%s", i, (long)want, dirSet ? dir.c_str() : "<unset>", x.base ? " (already loaded)" : "", le ? "" : " big-endian"); unsigned f0 = sim::faultsFired();
      void *before = x.base; bool r = load(&x.base, (char *)fn[i], want, le); sim::ev("  -> %d", r);
      std::string rel = (dirSet ? dir : std::string(".")) + "/" + fn[i]; auto it = fs.find(rel); bool there = it != fs.end(); bool faulted = sim::faultsFired() != f0;
      if (before) { if (x.base != before) fail("reload-moved", "loading again replaced the loaded constants"); if (want > 0 && le && !r) fail("reload-failed", "loading again reported failure"); break; }
      bool possible = there && want > 0 && le && (int64_t)it->second.data.size() >= want;
      if (r && !x.base) fail("success-without-data", "the load reported success but left the address empty");
      if (r && !possible) fail(there && want > 0 && le ? "truncated-accepted" : "bad-accepted", "the load of %ld bytes reported success, but the file %s (%ld bytes)", (long)want, there ? "is too short or in the wrong byte order" : "does not exist", there ? (long)it->second.data.size() : 0l);
      if (!r && x.base) fail("failure-with-address", "the load failed but left an address behind");
      if (!r && possible && !faulted) fail("spurious-failure", "the load failed although every step succeeded");
      if (r) { if (memcmp(x.base, it->second.data.data(), want)) fail("wrong-bytes", "the loaded constants differ from the file"); x.content = it->second.data.substr(0, want); x.size = want; if (faulted) sim::probe("loaded in spite of a fault"); }
      else if (faulted) sim::probe("load failed by a fault"); else sim::probe("load failed by its file");
    } break;
    case 3: { // address of one constant
      if (!x.base) break;
      if (sim::chance(1, 4)) { static const int64_t big[] = {1ll << 31, (1ll << 31) - 4, (1ll << 32) + 64, 5ll << 33}; int64_t off = big[sim::choose(4)]; void *o = nullptr; sim::op("address %d offset %ld", i, (long)off); addr(&o, &x.base, off); if (o != (void *)((uintptr_t)x.base + off)) fail("wrong-address", "the address of a constant at offset %ld is not in the data", (long)off); }
      int64_t off = sim::choose(x.size); sim::op("address %d offset %ld", i, (long)off); void *&slot = x.addrs[off]; addr(&slot, &x.base, off);
      if (slot != (char *)x.base + off) fail("wrong-address", "constant at offset %ld is not inside the loaded data", (long)off);
      if (*(char *)slot != x.content[off]) fail("wrong-bytes", "the constant differs from the file");
    } break;
    case 4: { // unload
      sim::op("unload %d%s", i, x.base ? "" : " (not loaded)"); bool was = x.base; bool r = unload(&x.base, sizes[i]); sim::ev("  -> %d", r);
      if (r != was) fail("unload-outcome", "unloading %s constants returned %d", was ? "loaded" : "absent", r);
      if (x.base) fail("address-after-unload", "the address is still set after unloading, so the constants can never be loaded again");
      x.addrs.clear(); if (was) sim::probe("unloaded");
    } break;
    case 5: { int d = sim::choose(5); sim::op("configure directory %d", d); setDir(d); } break;
    case 6: { const char *d = dirs[sim::choose(3)]; bool inUse = false; for (auto &y : s) if (y.base) inUse = true; if (inUse) break; // files are replaced only while nothing is loaded
      sim::op("replace file %d in %s", i, d); std::string rel = std::string(d) + "/" + fn[i]; unlink(rel.c_str()); put(rel, sizes[i], ++salt); } break;
    }
    if (!fds.empty()) fail("descriptor-leak", "%zu descriptors opened by the loader are still open", fds.size());
    size_t wantPages = 0, blocks = 0; for (auto &y : s) if (y.base) { if (zos) blocks++; else wantPages += (y.size + 4095) / 4096; }
    size_t heap = sim::ledgerLive(1 << sim::TAG_SUT) - heap0;
    // how the data is kept is free: mapped or on the heap, but nothing else stays
    if (pages.size() + heap == 0 && wantPages + blocks) fail("lost-data", "constants are loaded but no memory holds them");
    if (wantPages + blocks == 0 && (pages.size() || heap)) fail("memory-leak", "nothing is loaded but %zu mapped pages and %zu heap blocks remain: %s", pages.size(), heap, sim::ledgerDescribe(1 << sim::TAG_SUT).c_str());
    size_t nl = 0; for (auto &y : s) nl += y.base != nullptr;
    if (heap > nl) fail("memory-leak", "%zu heap blocks for %zu loaded constants: %s", heap, nl, sim::ledgerDescribe(1 << sim::TAG_SUT).c_str());
    size_t maxPages = 0; for (auto &y : s) if (y.base) maxPages += (y.size + 5001 + 8191) / 4096;
    if (pages.size() > maxPages) fail("memory-leak", "%zu mapped pages for constants of at most %zu pages", pages.size(), maxPages);
    for (auto &y : s) if (y.base && memcmp(y.base, y.content.data(), y.size)) fail("wrong-bytes", "loaded constants changed later");
    uint64_t st = zos; for (auto &y : s) st = st * 3 + (y.base != nullptr); sim::state(st * 8 + (dirSet ? dir.size() : 0));
  }
  sim::armFaults(false);
  if (zos && sim::chance(1, 40)) { // constants of more than a gigabyte
    sim::op("load a huge file"); unsetenv("OM_CONSTANT_PATH"); int h = __real_open("huge", O_CREAT | O_RDWR, 0600); if (ftruncate(h, HUGE_SIZE)) return; for (int64_t m : MARK) (void)!pwrite(h, "M", 1, m); __real_close(h);
    void *base = nullptr; g_watch = "huge"; bool r = load(&base, (char *)"huge", HUGE_SIZE, 1); g_watch = nullptr; g_huge = -1; sim::probe("huge");
    if (!r) fail("spurious-failure", "a file of more than a gigabyte was not loaded");
    for (int64_t m : MARK) if (((char *)base)[m] != 'M') fail("wrong-bytes", "byte %lld of a file of more than a gigabyte differs", (long long)m);
    if (!unload(&base, HUGE_SIZE)) fail("unload-outcome", "unloading loaded constants failed"); unlink("huge"); if (dirSet) setenv("OM_CONSTANT_PATH", dir.c_str(), 1);
  }
  for (int i = 0; i < NF; i++) if (s[i].base) unload(&s[i].base, sizes[i]);
  if (!pages.empty() || sim::ledgerLive(1 << sim::TAG_SUT) != heap0) fail("memory-leak", "after unloading everything %zu mapped pages and heap blocks %s remain", pages.size(), sim::ledgerDescribe(1 << sim::TAG_SUT).c_str());
  for (const char *d : dirs) put(std::string(d) + "/" + fn[0], sizes[0], 99); // once faults stop, a good file loads
  if (!load(&s[0].base, (char *)fn[0], sizes[0], 1) && !(dirSet && dir == "../missing")) fail("no-recovery", "a good file cannot be loaded any more");
}
} // namespace
int main(int argc, char **argv) { sim::Options o; o.needScratch = true; return sim::simMain(argc, argv, o, nullptr, run); }
