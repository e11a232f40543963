// Replacement of the compiled part of libstdc++ / libc for symbolic execution.
// Only what is not visible as inline code in the headers lives here.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vp.h"
#include <string>
#include <sstream>
#include <ostream>
#include <iostream>
#include <stdexcept>
#include <system_error>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <unordered_map>
#include <list>
#include <functional>
#include <map>
#include <new>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <sys/time.h>
#include <pthread.h>
#include <cstdio>
#include <istream>

// ---------------------------------------------------------------- containers
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { for (auto p : primes) if (p >= n) { _M_next_resize = (std::size_t)(p * (double)_M_max_load_factor); return p; } _M_next_resize = (std::size_t)-1; return 10273; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
    if (ne + ni > _M_next_resize) { double mb = (_M_next_resize ? ne + ni : (ne + ni > 11 ? ne + ni : 11)) / (double)_M_max_load_factor;
        if (mb >= nb) { std::size_t a = (std::size_t)mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; } _M_next_resize = (std::size_t)(nb * (double)_M_max_load_factor); return {false, 0}; }
    return {false, 0}; }
} // namespace __detail
// ordered containers: a plain (unbalanced) search tree has the same observable behaviour
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    auto *&root = h._M_parent; auto *&lm = h._M_left; auto *&rm = h._M_right; auto *y = z; _Rb_tree_node_base *x = nullptr;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; }
    else { auto *xp = y->_M_parent; if (x) x->_M_parent = xp; if (root == z) root = x; else if (xp->_M_left == z) xp->_M_left = x; else xp->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto *q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto *q = x; while (q->_M_right) q = q->_M_right; rm = q; } } }
    return z; }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; auto *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ul; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
static char *dup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string::~__cow_string() { free((void *)_M_p); }
logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return _M_msg._M_p; } logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; } runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
#define VP_EXC(n, b) n::n(const string &s) : b(s) {} n::n(const char *s) : b(s) {} n::~n() noexcept {}
VP_EXC(out_of_range, logic_error) VP_EXC(length_error, logic_error) VP_EXC(invalid_argument, logic_error) VP_EXC(overflow_error, runtime_error) VP_EXC(range_error, runtime_error)
domain_error::~domain_error() noexcept {} underflow_error::~underflow_error() noexcept {}
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_exception() { throw bad_exception(); }
void __throw_length_error(const char *s) { throw length_error(s); } void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); } void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { vp_fail("libstdc++ assertion"); __builtin_trap(); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }

// ---------------------------------------------------------------- error categories
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int c, const error_condition &d) const noexcept { return default_error_condition(c) == d; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int i) const { return __cow_string(message(i)); }
namespace { struct simple_cat final : error_category { const char *n; simple_cat(const char *s) : n(s) {} const char *name() const noexcept override { return n; } string message(int) const override { return n; } }; 
alignas(simple_cat) char gc[sizeof(simple_cat)], sc[sizeof(simple_cat)]; bool gi = false, si = false; }
const error_category &generic_category() noexcept { if (!gi) { new (gc) simple_cat("generic"); gi = true; } return *(simple_cat *)gc; }
const error_category &system_category() noexcept { if (!si) { new (sc) simple_cat("system"); si = true; } return *(simple_cat *)sc; }
} // namespace _V2
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

// ---------------------------------------------------------------- time, threads
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { vp_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vp_cond_signal(this); } void condition_variable::notify_all() noexcept { vp_cond_broadcast(this); }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { auto t = vp_thread_create([](void *p) -> void * { auto *st = (_State *)p; st->_M_run(); delete st; return nullptr; }, st.release()); _M_id = id(t + 1); }
void thread::join() { vp_thread_join(_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
} // namespace std

// ---------------------------------------------------------------- streams (string streams only; the console is a sink)
namespace std {
locale::locale() throw() : _M_impl(nullptr) {} locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {} locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
locale::facet::~facet() {}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void ios_base_library_init() {}
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) { ios_base::_M_init(); _M_fill = ' '; _M_fill_init = true; _M_tie = nullptr; _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit; _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> locale basic_ios<char>::imbue(const locale &l) { return l; }
static void vp_num(ostream &o, unsigned long v, bool neg) {
    char b[32]; int n = 32; bool hex = (o.flags() & ios_base::basefield) == ios_base::hex; unsigned long base = hex ? 16 : 10;
    do { b[--n] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[--n] = '-'; __ostream_insert(o, b + n, 32 - n); }
template <> template <> ostream &ostream::_M_insert(long v) { vp_num(*this, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return *this; }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { vp_num(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(long long v) { vp_num(*this, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return *this; }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { vp_num(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(bool v) { vp_num(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(const void *p) { auto v = (unsigned long)p; char b[20]; int n = 20; do { b[--n] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); if (p) { b[--n] = 'x'; b[--n] = '0'; } __ostream_insert(*this, b + n, 20 - n); return *this; }
template <> template <> ostream &ostream::_M_insert(double) { __ostream_insert(*this, "0.0", 3); return *this; }
template <> template <> ostream &ostream::_M_insert(long double) { __ostream_insert(*this, "0.0", 3); return *this; }
template <> ostream &ostream::operator<<(int v) { return _M_insert((long)v); }
template <> ostream &ostream::operator<<(short v) { return _M_insert((long)v); }
template <> ostream &ostream::flush() { return *this; }
template <> ostream::sentry::sentry(ostream &o) : _M_ok(o.good()), _M_os(o) {}
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_string<char>;
template string operator+(const char *, const string &);
template string operator+(const string &, const char *);
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, const string &);
template ostream &endl(ostream &);
template ostream &flush(ostream &);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
void ctype<char>::_M_widen_init() const {}
bool uncaught_exception() noexcept { return false; }
}
namespace std { struct vp_sink : streambuf { int_type overflow(int_type c) override { return c; } streamsize xsputn(const char *, streamsize n) override { return n; } }; static vp_sink vp_sink_buf __attribute__((init_priority(101))); 
extern ostream cout, cerr, clog; }
namespace std { ostream cout __attribute__((init_priority(102))) {&vp_sink_buf}; ostream cerr __attribute__((init_priority(102))) {&vp_sink_buf}; ostream clog __attribute__((init_priority(102))) {&vp_sink_buf}; }

// ---------------------------------------------------------------- libc
extern "C" {
__attribute__((weak)) vp_u64 vp_now_ns(void) { return 1000000000000ul; }   // steady clock, supplied by the harness
__attribute__((weak)) vp_u64 vp_wall_us(void) { return 0; }                // microseconds within one second of wall clock time
__attribute__((weak)) long vp_zone_s(void) { return 0; }                   // offset of the local time, in seconds
__attribute__((weak)) void vp_timed_out(vp_u64 deadline_ns) {}             // a timed wait ran into its deadline
void vp_race_release(void *);
int __cxa_guard_acquire(vp_u64 *g) { if (*(volatile char *)g) return 0; pthread_mutex_lock((pthread_mutex_t *)g); if (*(volatile char *)g) { pthread_mutex_unlock((pthread_mutex_t *)g); return 0; } return 1; }
void __cxa_guard_release(vp_u64 *g) { *(volatile char *)g = 1; vp_race_release(g); pthread_mutex_unlock((pthread_mutex_t *)g); }
void __cxa_guard_abort(vp_u64 *g) { pthread_mutex_unlock((pthread_mutex_t *)g); }
char *__cxa_demangle(const char *, char *, size_t *, int *st) { if (st) *st = -2; return nullptr; }
char *getenv(const char *) { return nullptr; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
void *vp_memchr(const void *, int, size_t) __asm__("memchr"); char *vp_strchr(const char *, int) __asm__("strchr");
void *vp_memchr(const void *p, int c, size_t n) { auto *b = (const unsigned char *)p; for (; n; --n, ++b) if (*b == (unsigned char)c) return (void *)b; return nullptr; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *vp_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
long __isoc23_strtol(const char *s, char **, int) { long r = 0; while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0'); return r; }
int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = 1600000000; tv->tv_usec = (long)vp_wall_us(); return 0; }
static struct tm *brk(const time_t *t, struct tm *r) { long s = *t % 86400, d = *t / 86400; int y = 1970; while (true) { int n = (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365; if (d < n) break; d -= n; ++y; }
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; r->tm_yday = (int)d; while (true) { int n = ml[m] + (m == 1 && (y % 4 == 0 && (y % 100 || y % 400 == 0))); if (d < n) break; d -= n; ++m; }
    r->tm_year = y - 1900; r->tm_mon = m; r->tm_mday = (int)d + 1; r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s / 60 % 60); r->tm_sec = (int)(s % 60); r->tm_isdst = 0; r->tm_wday = 0; return r; }
struct tm *localtime_r(const time_t *t, struct tm *r) { time_t l = *t + vp_zone_s(); return brk(&l, r); }
struct tm *gmtime_r(const time_t *t, struct tm *r) { return brk(t, r); }
time_t time(time_t *t) { if (t) *t = 1600000000; return 1600000000; }
static long ns(const struct timespec *ts) { return ts->tv_sec * 1000000000l + ts->tv_nsec; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { long d = ns(ts); if (vp_cond_timedwait(c, m)) { pthread_mutex_unlock(m); vp_timed_out((vp_u64)d); pthread_mutex_lock(m); return 110; } return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return pthread_cond_clockwait(c, m, 0, ts); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { vp_cond_wait(c, m); return 0; }
int pthread_cond_signal(pthread_cond_t *c) { vp_cond_signal(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { vp_cond_broadcast(c); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { vp_timed_out(vp_now_ns() + (vp_u64)ns(ts)); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *) { vp_timed_out((vp_u64)ns(ts)); return 0; }
int clock_gettime(clockid_t, struct timespec *ts) { vp_u64 n = vp_now_ns(); ts->tv_sec = (long)(n / 1000000000ul); ts->tv_nsec = (long)(n % 1000000000ul); return 0; }
int printf(const char *, ...) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
int puts(const char *) { return 0; }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)vp_now_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1600000000000000000l + 1000l * (long)vp_wall_us())); }
} } }
