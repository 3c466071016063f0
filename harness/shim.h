// Interposition layer between dav1d and libc (linked with --wrap): allocation books, fault injection, and in the
// "sched" variant a deterministic scheduler that owns every thread, lock, condition variable and atomic.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ShimCtl {
    int have;             // 1: the shim is linked in (0: this variant has none)
    int sched;            // 1: the scheduler is linked in
    long live, bytes;     // blocks allocated and not freed, and their size
    long n;               // allocation-like calls so far (numbered from 0)
    long fail_at, fail_len; // calls fail_at..fail_at+fail_len-1 fail (fail_at < 0: none)
    uint64_t fail_seed; int fail_permille; // or: each call fails with this chance
    long failed;          // failures injected
    int fill;             // -1: leave alone, otherwise new memory is filled with this byte
    unsigned long huge;   // requests above this many bytes fail (0: no limit)
    long threads;         // threads alive
    int trap;             // stop in the debugger at an injected failure
};
extern struct ShimCtl SHIM;
// scheduler
struct SchedStat { long steps, switches, atomics, locks, waits, signals, threads, spurious; };
void sched_start(uint64_t seed, int strategy); // 0 random walk ... see shim.cc
void sched_stop(void);
extern struct SchedStat SCHED;
#ifdef __cplusplus
}
#endif
