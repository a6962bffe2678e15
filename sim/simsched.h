// Deterministic scheduler: every task is a real thread (so that thread-local
// storage is real), but only the one the simulator picked runs; all others are
// parked. A task gives up the processor when it blocks, ends, or reaches a
// preemption point the simulator chose. See DESIGN.md.
#pragma once
#include "simkit.h"
namespace sim {
void schedStart();                 // the caller becomes task 0
void schedAbandon();               // in a forked child: no more scheduling
void schedFinish();                // all other tasks must have ended; back to a single thread
bool schedOn();
int taskSelf();                    // -1 outside
int taskSpawn(const char *name, std::function<void()> f);
void taskJoin(int t);
void taskJoinAll();
void taskJoinAllBut(const char *prefix); // of their names
// preemption point: data shared between tasks is about to be touched
void yieldPoint(const char *what);
void blockOn(const void *obj, const char *what);             // until wakeOn(obj)
bool blockOnUntil(const void *obj, uint64_t deadline, const char *what); // false: the time came first
void wakeOn(const void *obj, bool all);
void sleepUntil(uint64_t t);
uint64_t schedSwitches();
uint64_t schedPreemptions();
void schedStepCap(uint64_t n);
void onThreadCreateFail(bool on);  // pthread_create may fail (fault kind thread-create-fails)
unsigned tasksCreated();
}
