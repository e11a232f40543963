/* Native replay of a schedule. The bitcode the symbolic executor ran is instrumented (vpsym --instrument) with a call before
 * every memory access; this runtime lets one thread run at a time and follows the solver's choices at the same scheduling
 * points, checks the same happens-before relation and detects accesses to released memory. */
#include "vp.h"
#include "../engine/race.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/mman.h>

extern "C" { uint64_t vp_native_take(const char *); [[noreturn]] void vp_native_bye(int rc, const char *what, const char *msg); int vp_native_bad(const void *p, size_t n); extern vp_u64 vp_now_ns(void) __attribute__((weak)); extern void vp_timed_out(vp_u64) __attribute__((weak)); extern char __data_start, _end; }
namespace {
enum TS { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Mutex { uint64_t m; int owner, count; };
struct Th { TS st = T_RUN; uint64_t wait = 0, mutex = 0; bool timed = false, timedOut = false; sem_t sem; pthread_t p; void *(*fn)(void *) = nullptr; void *arg = nullptr; uintptr_t lo = 0, hi = 0; } th[6];
unsigned n = 1, cur = 0, nsched = 0; int preempts = 0, bound = 2; bool schedDone = false;
Mutex mtx[512]; unsigned nm = 0;
Mutex &M(uint64_t m) { for (unsigned i = 0; i < nm; i++) if (mtx[i].m == m) return mtx[i]; if (nm == 512) abort(); mtx[nm] = Mutex{m, 0, 0}; return mtx[nm++]; }
alignas(race::Detector) char rbuf[sizeof(race::Detector)]; bool rinit; race::Detector &R() { if (!rinit) { rinit = true; new (rbuf) race::Detector(); } return *(race::Detector *)rbuf; }
struct Init { Init() { const char *b = getenv("VP_PREEMPT"); if (b) bound = atoi(b); pthread_attr_t a; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); th[0].lo = (uintptr_t)lo; th[0].hi = (uintptr_t)lo + sz; sem_init(&th[0].sem, 0, 0); } } init_;
bool enabled(unsigned i) { Th &t = th[i]; switch (t.st) { case T_RUN: return true; case T_MUTEX: return M(t.wait).count == 0; case T_JOIN: return th[t.wait].st == T_DONE; default: return false; } }
void wake(unsigned i) { Th &t = th[i]; if (t.st == T_COND) { t.timedOut = true; if (M(t.mutex).count == 0) t.st = T_RUN; else { t.st = T_MUTEX; t.wait = t.mutex; t.timed = false; } } else t.st = T_RUN; }
void choose(bool must) {
    unsigned en[6], k = 0; bool curOk = !must && th[cur].st == T_RUN;
    if (curOk) en[k++] = cur;
    if (!curOk || preempts < bound) for (unsigned i = 0; i < n; i++) if ((i != cur || !curOk) && enabled(i)) en[k++] = i;
    if (!k) for (unsigned i = 0; i < n; i++) if (th[i].st == T_COND && th[i].timed) en[k++] = i;
    if (!k) vp_native_bye(45, "DEADLOCK", "no thread can make progress");
    unsigned c = 0;
    if (k > 1) { char b[32]; snprintf(b, sizeof b, "sched%u", nsched++); c = (unsigned)vp_native_take(b); if (c >= k) vp_native_bye(44, "DIVERGED", "schedule"); if (curOk && c) preempts++; }
    unsigned me = cur; cur = en[c]; wake(cur); schedDone = true;
    if (cur != me) { sem_post(&th[cur].sem); if (th[me].st != T_DONE) while (sem_wait(&th[me].sem) && errno == EINTR) {} }
}
void point() {
    if (n < 2) return;
    if (schedDone) { schedDone = false; return; }
    unsigned alive = 0; for (unsigned i = 0; i < n; i++) alive += th[i].st != T_DONE;
    if (alive < 2) return;
    choose(false); schedDone = false;
}
bool own(uintptr_t a) { return a >= th[cur].lo && a < th[cur].hi; }
bool tracked(uintptr_t a) { if (own(a)) return false; if ((a >> 40) == 0x70) return true; if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) return true; for (unsigned i = 0; i < n; i++) if (a >= th[i].lo && a < th[i].hi) return true; return false; }
void *start(void *p) { auto i = (unsigned)(uintptr_t)p; while (sem_wait(&th[i].sem) && errno == EINTR) {} th[i].fn(th[i].arg); th[i].st = T_DONE; schedDone = false; choose(true); return nullptr; }
void check(uintptr_t a, size_t sz) { if ((a >> 40) == 0x70) if (int b = vp_native_bad((void *)a, sz)) vp_native_bye(99, "ERROR: replay", b == 1 ? "access to released memory" : "access outside of an object"); }
void note(uintptr_t a, size_t sz, bool write, bool atomic) { if (tracked(a) && R().access(cur, a, sz, write, atomic)) vp_native_bye(46, "RACE", "two threads access the same memory without synchronization, one of them writes"); }
long ns(const struct timespec *ts) { return ts->tv_sec * 1000000000l + ts->tv_nsec; }
}
extern "C" {
void vp_hook(void *p, uint64_t sz, int kind, int order) {
    auto a = (uintptr_t)p; check(a, sz); if (n < 2) return;
    if (order == 0) { note(a, sz, kind == 1, false); return; }
    if (kind != 3 && !own(a)) { point(); check(a, sz); }
    note(a, sz, kind != 0, true);
    if (kind == 0) R().aload(cur, a, (unsigned)order); else if (kind == 1) R().astore(cur, a, (unsigned)order); else R().armw(cur, a, (unsigned)order);
}
void vp_hook_cas(void *p, uint64_t sz, uint64_t expected, int succ, int fail) {
    auto a = (uintptr_t)p; check(a, sz); if (n < 2) return;
    if (!own(a)) { point(); check(a, sz); }
    uint64_t v = 0; memcpy(&v, p, sz < 8 ? sz : 8); bool ok = v == expected;
    note(a, sz, ok, true);
    if (ok) R().armw(cur, a, (unsigned)succ); else R().aload(cur, a, (unsigned)fail);
}
void vp_hook_fence(int order) { if (n > 1) R().fence(cur, (unsigned)order); }
void vp_native_freed(void *p, size_t sz) { if (n > 1 && R().released(cur, (uintptr_t)p, sz)) vp_native_bye(46, "RACE", "memory is released while another thread still accesses it"); }

int pthread_mutex_lock(pthread_mutex_t *m) noexcept { auto k = (uint64_t)m; point(); while (M(k).count && M(k).owner != (int)cur) { th[cur].st = T_MUTEX; th[cur].wait = k; choose(true); schedDone = false; } if (M(k).count) vp_native_bye(45, "DEADLOCK", "mutex locked twice by the same thread"); M(k).owner = (int)cur; M(k).count = 1; if (n > 1) R().lock(cur, k); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { auto k = (uint64_t)m; point(); if (M(k).count) return EBUSY; M(k).owner = (int)cur; M(k).count = 1; if (n > 1) R().lock(cur, k); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { auto k = (uint64_t)m; point(); M(k).count = 0; if (n > 1) R().unlock(cur, k); return 0; }
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
static int cond_wait(void *c, void *m, bool timed) {
    auto k = (uint64_t)m; point(); M(k).count = 0; if (n > 1) R().unlock(cur, k);
    Th &t = th[cur]; t.st = T_COND; t.wait = (uint64_t)c; t.mutex = k; t.timed = timed; t.timedOut = false; choose(true); schedDone = false;
    while (M(k).count) { th[cur].st = T_MUTEX; th[cur].wait = k; choose(true); schedDone = false; }
    M(k).owner = (int)cur; M(k).count = 1; if (n > 1) R().lock(cur, k); bool r = th[cur].timedOut; th[cur].timedOut = false; return r;
}
static void cond_signal(void *c, bool all) { point(); for (unsigned i = 0; i < n; i++) if (th[i].st == T_COND && th[i].wait == (uint64_t)c) { th[i].st = T_MUTEX; th[i].wait = th[i].mutex; th[i].timed = false; if (!all) break; } }
int vp_cond_wait(void *c, void *m) { return cond_wait(c, m, false); }
int vp_cond_timedwait(void *c, void *m) { return cond_wait(c, m, true); }
void vp_cond_signal(void *c) { cond_signal(c, false); }
void vp_cond_broadcast(void *c) { cond_signal(c, true); }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { cond_wait(c, m, false); return 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { long d = ns(ts); if (cond_wait(c, m, true)) { pthread_mutex_unlock(m); if (vp_timed_out) vp_timed_out((vp_u64)d); pthread_mutex_lock(m); return ETIMEDOUT; } return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return pthread_cond_clockwait(c, m, 0, ts); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { cond_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { cond_signal(c, true); return 0; }
void vp_yield(void) { point(); }
int sched_yield(void) noexcept { point(); return 0; }
int __cxa_guard_acquire(long long *g) { if (*(char *)g) return 0; pthread_mutex_lock((pthread_mutex_t *)g); if (*(char *)g) { pthread_mutex_unlock((pthread_mutex_t *)g); return 0; } return 1; }
void __cxa_guard_release(long long *g) { *(char *)g = 1; if (n > 1) R().release(cur, (uint64_t)g); pthread_mutex_unlock((pthread_mutex_t *)g); }
void __cxa_guard_abort(long long *g) { pthread_mutex_unlock((pthread_mutex_t *)g); }
vp_u64 vp_thread_create(void *(*fn)(void *), void *arg) {
    if (n >= 5) abort(); unsigned i = n; Th &t = th[i]; t.fn = fn; t.arg = arg; sem_init(&t.sem, 0, 0); constexpr size_t S = 8u << 20;
    void *st = mmap(nullptr, S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0); t.lo = (uintptr_t)st; t.hi = t.lo + S;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, S); n++; R().create(cur, i);
    if (pthread_create(&t.p, &a, start, (void *)(uintptr_t)i)) abort(); return i;
}
void vp_thread_join(vp_u64 i) { while (th[i].st != T_DONE) { th[cur].st = T_JOIN; th[cur].wait = i; choose(true); } schedDone = false; R().join(cur, (unsigned)i); }
}
