/* Native side of include/vp.h: the same harness, compiled as an ordinary program against the real libraries, takes the
 * values the solver chose from the file named by VP_INPUTS ("value name" lines, in order). */
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <string>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <utility>
#include <cerrno>

extern "C" {
void vp_native_thread_note();
}
namespace {
std::atomic<long> gLive{0};
struct In { char name[120]; uint64_t v; };
struct Inputs { // does not use operator new: the heap below belongs to the program
    In *v = nullptr; size_t n = 0, pos = 0; FILE *log = nullptr;
    Inputs() {
        if (const char *p = getenv("VP_INPUTS")) {
            FILE *f = fopen(p, "r"); In x; unsigned long long u; size_t cap = 0;
            while (f && fscanf(f, "%llu %119[^\n]", &u, x.name) == 2) { x.v = u; if (n == cap) v = (In *)realloc(v, (cap = cap ? cap * 2 : 64) * sizeof(In)); v[n++] = x; }
            if (f) fclose(f);
        }
        if (const char *p = getenv("VP_LOG")) log = fopen(p, "w");
    }
};
Inputs &in() { static Inputs i; return i; }
[[noreturn]] void bye(int rc, const char *what, const char *msg) {
    fprintf(stderr, "%s: %s\n", what, msg); if (in().log) { fprintf(in().log, "END %d\n", rc); fclose(in().log); in().log = nullptr; }
    fflush(nullptr); _exit(rc);
}
uint64_t take(const char *name) {
    auto &i = in();
    while (i.pos < i.n && strncmp(i.v[i.pos].name, "sched", 5) == 0 && strncmp(name, "sched", 5) != 0) ++i.pos;
    if (i.pos >= i.n) return 0; // the failure came before this value was asked for
    if (strcmp(i.v[i.pos].name, name) != 0) { char b[300]; snprintf(b, sizeof b, "input %s instead of %s", name, i.v[i.pos].name); bye(44, "DIVERGED", b); }
    return i.v[i.pos++].v;
}
}
extern "C" {
uint64_t vp_native_take(const char *n) { return take(n); }
[[noreturn]] void vp_native_bye(int rc, const char *what, const char *msg) { bye(rc, what, msg); }
__attribute__((weak)) void vp_native_freed(void *p, size_t n);
int vp_native_peek_is(const char *prefix) { auto &i = in(); return i.pos < i.n && strncmp(i.v[i.pos].name, prefix, strlen(prefix)) == 0; }
uint64_t vp_native_next() { auto &i = in(); return i.v[i.pos++].v; }
vp_u64 vp_sym(const char *name, vp_u64) { return take(name); }
vp_u64 vp_range(const char *name, vp_u64 lo, vp_u64 hi) { if (lo == hi) return lo; vp_u64 v = take(name); if (v < lo || v > hi) v = lo; return v; }
unsigned vp_choice(const char *name, unsigned n) { if (n <= 1) return 0; unsigned v = (unsigned)take(name); return v < n ? v : 0; }
void vp_assume(int c) { if (!c) bye(43, "ASSUME", "an assumption does not hold on this input"); }
void vp_check(int c, const char *m) { if (!c) bye(42, "VPCHECK", m); }
void vp_fail(const char *m) { bye(42, "VPCHECK", m); }
void vp_reach(const char *) {}
void vp_log(const char *t, vp_u64 v) { if (in().log) fprintf(in().log, "%s %llu\n", t, (unsigned long long)v); }
vp_u64 vp_live(void) { in(); return (vp_u64)gLive.load(); }
vp_u64 vp_concretize(vp_u64 v) { return v; }
void vp_end(void) { bye(0, "END", ""); }
void vp_debug(const char *t, vp_u64 v) { if (getenv("VP_DEBUG")) fprintf(stderr, "dbg %s = %llu\n", t, (unsigned long long)v); }
}
// the wall clock of a harness which has one
#include <sys/time.h>
#include <sys/syscall.h>
#include <ctime>
extern "C" {
__attribute__((weak)) vp_u64 vp_wall_us(void); __attribute__((weak)) long vp_zone_s(void);
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { if (vp_wall_us) { tv->tv_sec = 1600000000; tv->tv_usec = (long)vp_wall_us(); return 0; } return (int)syscall(SYS_gettimeofday, tv, nullptr); }
struct tm *localtime_r(const time_t *__restrict t, struct tm *__restrict r) noexcept { time_t l = *t + (vp_zone_s ? vp_zone_s() : 0); return gmtime_r(&l, r); }
}
// the steady clock of a harness which has one (a single thread: a timed wait ends at its deadline)
#include <chrono>
#include <pthread.h>
extern "C" {
__attribute__((weak)) vp_u64 vp_now_ns(void); __attribute__((weak)) void vp_timed_out(vp_u64 deadline_ns); __attribute__((weak)) int vp_native_threads(void);
#ifndef VP_THREADS
int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { pthread_mutex_unlock(m); if (vp_timed_out) vp_timed_out((vp_u64)(ts->tv_sec * 1000000000l + ts->tv_nsec)); else usleep(1000); pthread_mutex_lock(m); return ETIMEDOUT; }
#endif
}
#include <cerrno>
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { if (vp_now_ns) return time_point(duration((long)vp_now_ns())); struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000l + ts.tv_nsec)); }
} } }
__attribute__((destructor)) static void fini() { auto &i = in(); if (i.pos < i.n && i.log) { fprintf(stderr, "DIVERGED: input %s is not asked for\n", i.v[i.pos].name); fclose(i.log); i.log = nullptr; _exit(44); } if (in().log) { fprintf(in().log, "END 0\n"); fclose(in().log); in().log = nullptr; } }
// The heap hands out the addresses the symbolic executor gives (one slot of 1 MB for each object, never reused): containers
// keyed by pointers are iterated in the same order, and every access to released memory or past the end is detected.
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VP_POISON(p, n) __asan_poison_memory_region(p, n)
#else
#define VP_POISON(p, n) (void)0
#endif
#include <sys/mman.h>
namespace {
constexpr uintptr_t gBase = 7ul << 44; constexpr size_t gChunk = 1024, gMax = 1u << 20;
std::atomic<uint64_t> gNext{1}; std::atomic<uint64_t> gMapped{0}; std::atomic_flag gLock = ATOMIC_FLAG_INIT; unsigned char *gState; uint32_t *gSize;
void *take_slot(size_t n) {
    uint64_t slots = 1 + (n >> 20); uint64_t id = gNext.fetch_add(slots);
    if (id + slots >= gMax) abort();
    while (gMapped.load() < id + slots) {
        while (gLock.test_and_set()) {}
        if (!gState) { gState = (unsigned char *)calloc(gMax, 1); gSize = (uint32_t *)calloc(gMax, 4); }
        if (gMapped.load() < id + slots) {
            uint64_t m = gMapped.load(); void *at = (void *)(gBase + (m << 20));
            if (mmap(at, gChunk << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != at) { fprintf(stderr, "mmap failed\n"); abort(); }
            gMapped.store(m + gChunk);
        }
        gLock.clear();
    }
    auto p = (char *)(gBase + (id << 20)); gState[id] = 1; gSize[id] = (uint32_t)n; ++gLive;
    VP_POISON(p - 64, 64); size_t up = (n + 7) & ~7ul; VP_POISON(p + up, 256);
    if (n & 7) { VP_POISON(p + (n & ~7ul), 8); 
#if defined(__SANITIZE_ADDRESS__)
        __asan_unpoison_memory_region(p + (n & ~7ul), n & 7);
#endif
    }
    return p;
}
void drop_slot(void *p) {
    if (!p) return;
    auto a = (uintptr_t)p; uint64_t id = (a - gBase) >> 20;
    if (a < gBase || id >= gNext.load() || (a & 0xfffff) || gState[id] == 0) { fprintf(stderr, "ERROR: AddressSanitizer: attempting free on address which was not allocated %p\n", p); abort(); }
    if (gState[id] == 2) { fprintf(stderr, "ERROR: AddressSanitizer: attempting double-free on %p\n", p); abort(); }
    if (vp_native_freed) vp_native_freed(p, gSize[id]);
    gState[id] = 2; --gLive; memset(p, 0xdd, gSize[id]); VP_POISON(p, (gSize[id] + 7) & ~7ul);
}
}
void *operator new(size_t n) { return take_slot(n); }
void *operator new[](size_t n) { return take_slot(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take_slot(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take_slot(n); }
void *operator new(size_t n, std::align_val_t) { return take_slot(n); }
void operator delete(void *p) noexcept { drop_slot(p); }
void operator delete[](void *p) noexcept { drop_slot(p); }
void operator delete(void *p, size_t) noexcept { drop_slot(p); }
void operator delete[](void *p, size_t) noexcept { drop_slot(p); }
void operator delete(void *p, std::align_val_t) noexcept { drop_slot(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { drop_slot(p); }
extern "C" int vp_native_bad(const void *p, size_t n) { auto a = (uintptr_t)p; uint64_t id = (a - gBase) >> 20; if (a < gBase || id >= gNext.load()) return 2; while (id && !gState[id]) --id; if (gState[id] == 2) return 1; return gState[id] == 1 && a + n <= gBase + (id << 20) + gSize[id] ? 0 : 2; }
