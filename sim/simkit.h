// simkit: single-process deterministic simulation kit.
// One seed decides every choice; each run executes in a child forked from a
// pristine zygote and reports through a shared region. See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- decisions (all recorded; 0 is always the simplest / no fault) --------
uint64_t choose(uint64_t n);               // uniform in [0,n)
bool chance(unsigned num, unsigned den);   // recorded as 0/1
int64_t range(int64_t lo, int64_t hi);     // inclusive, simplest = lo
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

// ---- faults ---------------------------------------------------------------
// A fault point: true if the simulator injects this fault kind here. Fires
// only while faults are armed and code under test is running.
bool fault(const char *kind);
bool faultAlways(const char *kind);        // fault point outside SUT scope
void armFaults(bool on);
bool faultsArmed();
void faultKinds(const std::vector<const char *> &kinds); // draws the run's plan
unsigned taskFaults();                     // in this thread
unsigned faultsFired();                    // in this run
unsigned faultsFiredOf(const char *kind);
void countFault(const char *kind);         // fault decided by choose() elsewhere

// ---- scope: is code under test executing? ---------------------------------
bool inSut();
struct Sut { bool prev; Sut(); ~Sut(); };      // entering code under test
struct Env { bool prev; Env(); ~Env(); };      // entering simulator/model code

// ---- history --------------------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event + operation count
void probe(const char *name);
void state(uint64_t h);                    // abstract state reached
void state(const std::string &s);
void advance(uint64_t ns);                 // simulated time
uint64_t now();                            // simulated ns
void step(uint64_t cap);                   // step counter; violation "hang" beyond cap
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void endRun();                // finish the run successfully
[[noreturn]] void discard();               // run not usable (counts as trivial)
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string scratch();                     // per-worker scratch directory (empty at run start)
bool verbose();
const std::string &prop();
std::string arg(const char *name, const char *dflt = ""); // --x-NAME value

// ---- allocation ledger (see simalloc.cpp) ---------------------------------
enum Tag { TAG_HARNESS = 0, TAG_SUT = 1, TAG_MODEL = 2 };
void allocTag(Tag t);                      // tag for allocations outside SUT scope
Tag allocTag();
struct TagScope { Tag prev; TagScope(Tag t); ~TagScope(); };
void ledgerStart();                        // begin tracking
void ledgerStop();
size_t ledgerLive(int tagMask);            // live tracked allocations
uint32_t ledgerMark();
std::string ledgerDescribe(int tagMask, uint32_t after = 0);
bool ledgerIsLive(const void *p);
void ledgerForget(const void *p);
size_t ledgerSize(const void *p);
void onFresh(void (*f)(const void *, size_t)); // called for every new block while tracking
void *envAlloc(size_t n, Tag t);
void allocFaults(bool malloc_, bool new_); // which allocators are fault points

// ---- entry ----------------------------------------------------------------
struct Options { double cpuLimit = 20; bool needScratch = false; bool quiet = true; };
int simMain(int argc, char **argv, const Options &o, std::function<void()> warm,
    std::function<void()> run);

// for wrappers running before/after main
bool active();
// child process of the simulated run (P08...): detach from run bookkeeping
void *shared();
} // namespace sim
