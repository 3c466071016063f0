#include "shim.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <malloc.h>
#include <vector>
#include <unordered_map>
extern "C" {
ShimCtl SHIM = {
#ifdef NOSHIM
    0,
#else
    1,
#endif
#ifdef SCHED_VARIANT
    1,
#else
    0,
#endif
    0, 0, 0, -1, 0, 0, 0, 0, -1, 0, 0};
SchedStat SCHED;
#ifndef NOSHIM
static bool fails() {
    long i = __atomic_fetch_add(&SHIM.n, 1, __ATOMIC_RELAXED); bool f = false;
    if (SHIM.fail_at >= 0 && i >= SHIM.fail_at && i - SHIM.fail_at < SHIM.fail_len) f = true;
    if (SHIM.fail_permille) { uint64_t z = SHIM.fail_seed ^ (uint64_t)i * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; if ((int)(z % 1000) < SHIM.fail_permille) f = true; }
    if (f) { __atomic_fetch_add(&SHIM.failed, 1, __ATOMIC_RELAXED); if (SHIM.trap) __builtin_trap(); }
    return f;
}
static void add(void *p) { __atomic_fetch_add(&SHIM.live, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&SHIM.bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED); }
static void *got(void *p, size_t n) { if (p) { add(p); if (SHIM.fill >= 0) memset(p, SHIM.fill, n); } return p; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **);
void *__wrap_malloc(size_t n) { if (fails() || (SHIM.huge && n > SHIM.huge)) { errno = ENOMEM; return nullptr; } return got(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { if (fails()) { errno = ENOMEM; return nullptr; } void *p = __real_calloc(a, b); if (p) add(p); return p; }
void *__wrap_realloc(void *o, size_t n) { if (fails() || (SHIM.huge && n > SHIM.huge)) { errno = ENOMEM; return nullptr; } long was = o ? (long)malloc_usable_size(o) : 0; void *p = __real_realloc(o, n); if (p && !o) add(p); else if (p) __atomic_fetch_add(&SHIM.bytes, (long)malloc_usable_size(p) - was, __ATOMIC_RELAXED); return p; }
void __wrap_free(void *p) { if (p) { __atomic_fetch_sub(&SHIM.live, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&SHIM.bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED); } __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (fails() || (SHIM.huge && n > SHIM.huge)) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (!r) got(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (fails() || (SHIM.huge && n > SHIM.huge)) return nullptr; return got(__real_aligned_alloc(a, n), n); }
void *__wrap_memalign(size_t a, size_t n) { if (fails() || (SHIM.huge && n > SHIM.huge)) return nullptr; return got(__real_memalign(a, n), n); }
#ifndef SCHED_VARIANT
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (fails()) return ENOMEM; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { if (fails()) return ENOMEM; return __real_pthread_cond_init(m, a); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (fails()) return EAGAIN; int r = __real_pthread_create(t, a, f, x); if (!r) __atomic_fetch_add(&SHIM.threads, 1, __ATOMIC_RELAXED); return r; }
int __wrap_pthread_join(pthread_t t, void **r) { __atomic_fetch_sub(&SHIM.threads, 1, __ATOMIC_RELAXED); return __real_pthread_join(t, r); }
void sched_start(uint64_t, int) {}
void sched_stop(void) {}
#endif
#else
void sched_start(uint64_t, int) {}
void sched_stop(void) {}
#endif
}
#ifdef SCHED_VARIANT
// ---------------------------------------------------------------------------
// Exactly one thread runs at a time. At every lock, unlock, wait, signal, create, join and atomic operation the
// running thread may hand the baton to another one; which one is drawn from the seed. When no thread can run and
// some thread is not finished, the program is deadlocked.
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *); int __real_pthread_cond_destroy(pthread_cond_t *); int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *); int __real_pthread_once(pthread_once_t *, void (*)(void)); int __real_sched_yield(void);
}
namespace {
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Th { int id; sem_t sem; St st = RUN; void *obj = nullptr; pthread_t pt; void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr; uint64_t prio = 0; bool joined = false; };
bool on = false; std::vector<Th *> *T; std::unordered_map<void *, Th *> *owner; thread_local Th *self = nullptr; thread_local int noyield = 0;
uint64_t rs; int strat; int pm; long change_at[64]; int nchange; uint64_t low;
uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint32_t below(uint32_t n) { return n ? (uint32_t)(((rnd() >> 32) * n) >> 32) : 0; }
const char *sn(St s) { return s == RUN ? "runnable" : s == MUTEX ? "locking" : s == COND ? "waiting" : s == JOIN ? "joining" : "done"; }
[[noreturn]] void deadlock() { char b[1024]; int n = snprintf(b, sizeof b, "SCHED: deadlock after %ld steps:", SCHED.steps); for (Th *t : *T) if (t->st != DONE) n += snprintf(b + n, sizeof b - n, " %s%d %s", t->id ? "T" : "caller", t->id, sn(t->st)); b[n++] = '\n'; (void)!write(2, b, n); _exit(98); }
void wait_sem(Th *t) { while (sem_wait(&t->sem)) {} }
Th *choose(bool must_switch) { // among runnable threads
    Th *best = nullptr; int n = 0;
    if (strat == 0 || strat == 1) { for (Th *t : *T) if (t->st == RUN && (!must_switch || t != self)) n++; if (!n) return nullptr; int k = below(n); for (Th *t : *T) if (t->st == RUN && (!must_switch || t != self)) if (!k--) return t; }
    else for (Th *t : *T) if (t->st == RUN && (!must_switch || t != self) && (!best || t->prio > best->prio)) best = t;
    return best;
}
void to(Th *t) { if (t == self) return; SCHED.switches++; Th *me = self; sem_post(&t->sem); if (me->st != DONE) wait_sem(me); }
// called when the running thread cannot go on
void block() { for (;;) { Th *t = choose(true); if (t) { to(t); if (self->st == RUN) return; continue; } if (self->st == RUN) return; bool alive = false; for (Th *x : *T) if (x->st != DONE) alive = true; if (alive) deadlock(); return; } }
void point(int weight) {
    if (!on || !self || noyield) return;
    long s = ++SCHED.steps;
    if (s > 60000000) { (void)!write(2, "SCHED: step limit\n", 18); _exit(97); }
    if (!(rnd() & 1023)) { // a spurious wake-up, which POSIX allows
        int n = 0; for (Th *t : *T) if (t->st == COND) n++; if (n) { int k = below(n); for (Th *t : *T) if (t->st == COND && !k--) { t->st = RUN; t->obj = nullptr; SCHED.spurious++; break; } }
    }
    if (strat <= 1) { if ((int)below(1000) >= pm * weight) return; Th *t = choose(true); if (t) to(t); return; }
    for (int i = 0; i < nchange; i++) if (change_at[i] == s) { self->prio = --low; }
    if (strat == 3 && below(2000) == 0) self->prio = rnd() >> 8 | 1ull << 40;
    Th *t = choose(false); if (t && t != self) to(t);
}
void *tramp(void *a) { Th *t = (Th *)a; self = t; wait_sem(t); t->ret = t->fn(t->arg); SCHED.steps++; t->st = DONE; for (Th *x : *T) if (x->st == JOIN && x->obj == t) { x->st = RUN; x->obj = nullptr; } Th *n = choose(true); if (n) { SCHED.switches++; sem_post(&n->sem); } else { for (Th *x : *T) if (x->st != DONE) deadlock(); } return t->ret; }
void m_lock(void *m) { for (;;) { auto it = owner->find(m); if (it == owner->end() || !it->second) { (*owner)[m] = self; return; } if (it->second == self) { (void)!write(2, "SCHED: a thread locked a mutex it already holds\n", 48); _exit(96); } self->st = MUTEX; self->obj = m; block(); } }
void m_unlock(void *m) { auto it = owner->find(m); if (it == owner->end() || it->second != self) { (void)!write(2, "SCHED: unlock of a mutex not held by this thread\n", 49); _exit(96); } it->second = nullptr; for (Th *t : *T) if (t->st == MUTEX && t->obj == m) { t->st = RUN; t->obj = nullptr; } }
}
extern "C" {
void sched_start(uint64_t seed, int st) {
    T = new std::vector<Th *>; owner = new std::unordered_map<void *, Th *>; rs = seed; memset(&SCHED, 0, sizeof SCHED);
    Th *t = new Th; t->id = 0; sem_init(&t->sem, 0, 0); t->pt = pthread_self(); T->push_back(t); self = t; strat = st; low = 1u << 30;
    static const int P[] = {500, 250, 100, 30, 8, 2}; pm = P[below(6)]; t->prio = rnd() >> 8 | 1ull << 40;
    nchange = st >= 2 ? (int)below(24) : 0; long span = 200l << below(9); for (int i = 0; i < nchange; i++) change_at[i] = 1 + (long)(rnd() % span);
    on = true;
}
void sched_stop(void) { on = false; }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (fails()) return EAGAIN;
    if (!on) return __real_pthread_create(p, a, f, x);
    Th *t = new Th; t->id = (int)T->size(); sem_init(&t->sem, 0, 0); t->fn = f; t->arg = x; t->prio = rnd() >> 8 | 1ull << 40;
    int r = __real_pthread_create(&t->pt, a, tramp, t); if (r) { delete t; return r; }
    T->push_back(t); *p = t->pt; SCHED.threads++; SHIM.threads++; point(4); return 0;
}
int __wrap_pthread_join(pthread_t p, void **ret) {
    if (!on || !self) return __real_pthread_join(p, ret);
    for (Th *t : *T) if (!t->joined && pthread_equal(t->pt, p)) { while (t->st != DONE) { self->st = JOIN; self->obj = t; block(); } t->joined = true; SHIM.threads--; return __real_pthread_join(p, ret); }
    return __real_pthread_join(p, ret);
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (fails()) return ENOMEM; if (owner) owner->erase(m); return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (owner) { auto it = owner->find(m); if (it != owner->end()) { if (on && it->second) { (void)!write(2, "SCHED: destroyed a locked mutex\n", 32); _exit(96); } owner->erase(it); } } return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (fails()) return ENOMEM; return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { if (on) for (Th *t : *T) if (t->st == COND && t->obj == c) { (void)!write(2, "SCHED: destroyed a condition variable in use\n", 45); _exit(96); } return __real_pthread_cond_destroy(c); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!on || !self) return __real_pthread_mutex_lock(m); SCHED.locks++; point(4); m_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!on || !self) return __real_pthread_mutex_trylock(m); point(4); auto it = owner->find(m); if (it != owner->end() && it->second) return EBUSY; (*owner)[m] = self; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!on || !self) return __real_pthread_mutex_unlock(m); m_unlock(m); point(4); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on || !self) return __real_pthread_cond_wait(c, m);
    SCHED.waits++; point(4); m_unlock(m); self->st = COND; self->obj = c; block(); m_lock(m); return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!on || !self) return __real_pthread_cond_timedwait(c, m, ts);
    point(4); m_unlock(m); point(4); m_lock(m); return ETIMEDOUT;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!on || !self) return __real_pthread_cond_signal(c);
    SCHED.signals++; point(4); int n = 0; for (Th *t : *T) if (t->st == COND && t->obj == c) n++; if (n) { int k = below(n); for (Th *t : *T) if (t->st == COND && t->obj == c && !k--) { t->st = RUN; t->obj = nullptr; break; } } point(4); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!on || !self) return __real_pthread_cond_broadcast(c); SCHED.signals++; point(4); for (Th *t : *T) if (t->st == COND && t->obj == c) { t->st = RUN; t->obj = nullptr; } point(4); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { noyield++; int r = __real_pthread_once(o, f); noyield--; return r; }
int __wrap_sched_yield(void) { if (!on || !self) return __real_sched_yield(); point(1000); return 0; }
// ---- atomics: dav1d is compiled with clang's ThreadSanitizer instrumentation of atomic operations only ----
void __tsan_init(void) {}
#define AP (SCHED.atomics++, point(1))
#define ATOM(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *a, int) { AP; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int) { AP; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); AP; } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int) { AP; TY r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int) { AP; TY r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); AP; return r; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int, int) { AP; int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AP; return r; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int, int) { AP; int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AP; return r; } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY e, TY v, int, int) { AP; __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AP; return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { AP; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *) {} void __tsan_write##n(void *) {} void __tsan_unaligned_read##n(void *) {} void __tsan_unaligned_write##n(void *) {} void __tsan_read_write##n(void *) {} void __tsan_volatile_read##n(void *) {} void __tsan_volatile_write##n(void *) {} void __tsan_unaligned_volatile_read##n(void *) {} void __tsan_unaligned_volatile_write##n(void *) {} void __tsan_unaligned_read_write##n(void *) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) {} void __tsan_write_range(void *, unsigned long) {}
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); } void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); } void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
}
#endif
