// Stand-in for boost.asio: the pending operations of an io_context are kept in lists and the harness decides which of
// them is run next (any order asio permits). The semantics follow the asio documentation.
#pragma once
#include <boost/system/error_code.hpp>
#include <chrono>
#include <cstddef>
#include <deque>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
// with VP_ASIO_THREADS several threads may run the context: the lists are guarded by a mutex, and vp_asio::C tells about new work
#ifdef VP_ASIO_THREADS
#include <condition_variable>
#include <mutex>
namespace vp_asio { extern std::mutex M; extern std::condition_variable C; struct lock_t { std::unique_lock<std::mutex> l; bool wake; explicit lock_t(bool w = true) : l(M), wake(w) {} ~lock_t() { if (wake) C.notify_all(); } }; }
#else
namespace vp_asio { struct lock_t { explicit lock_t(bool = true) {} ~lock_t() {} }; }
#endif
namespace boost { namespace asio { namespace error { enum basic_errors : int; } }
namespace system { template <> struct is_error_code_enum<asio::error::basic_errors> { static const bool value = true; }; }
namespace asio {
namespace chrono = std::chrono;
namespace error { enum basic_errors : int { operation_aborted = 125 }; inline boost::system::error_code make(int e) { return boost::system::error_code(e, boost::system::system_category()); } inline boost::system::error_code make_error_code(basic_errors e) { return make(e); } }
class io_context;
namespace detail {
struct op_t { virtual void run() = 0; virtual ~op_t() = default; };
template <class F> struct op_impl : op_t { F f; explicit op_impl(F f_) : f(std::move(f_)) {} void run() override { f(); } };
using op_ptr = std::unique_ptr<op_t>;
template <class F> op_ptr make_op(F f) { return op_ptr(new op_impl<F>(std::move(f))); }
struct strand_queue { io_context *ctx; std::deque<op_ptr> q; bool running; };
struct wait_t { virtual void done(const boost::system::error_code &ec) = 0; virtual ~wait_t() = default; };
template <class F> struct wait_impl : wait_t { F f; explicit wait_impl(F f_) : f(std::move(f_)) {} void done(const boost::system::error_code &ec) override { f(ec); } };
struct waiting { const void *timer; std::chrono::steady_clock::time_point at; std::unique_ptr<wait_t> w; };
} // namespace detail
class io_context {
  public:
    io_context() = default; explicit io_context(int) {}
    io_context(const io_context &) = delete;
    ~io_context() { for (;;) { if (!timers.empty()) timers.clear(); else if (!ready.empty()) ready.clear(); else { bool any = false; for (auto *s : strands) if (!s->q.empty()) { any = true; s->q.clear(); } if (!any) break; } } for (auto *s : strands) delete s; }
    class executor_type {
      public:
        io_context *ctx; detail::strand_queue *str;
        executor_type(io_context *c, detail::strand_queue *s = nullptr) : ctx(c), str(s) {}
        io_context &context() const { return *ctx; }
        bool operator==(const executor_type &o) const { return ctx == o.ctx && str == o.str; }
    };
    class strand {
      public:
        detail::strand_queue *impl;
        explicit strand(io_context &c) : impl(c.make_strand_queue()) {}
        io_context &context() const noexcept { return *impl->ctx; }
        io_context &get_io_context() const noexcept { return *impl->ctx; }
        bool running_in_this_thread() const noexcept { return impl->ctx->current == impl; }
        template <class F> void post(F &&f) const { auto op = detail::make_op<std::decay_t<F>>(std::forward<F>(f)); vp_asio::lock_t k; impl->q.push_back(std::move(op)); }
        template <class F> void defer(F &&f) const { post(std::forward<F>(f)); }
        template <class F> void dispatch(F &&f) const { if (running_in_this_thread()) { std::decay_t<F> g(std::forward<F>(f)); g(); } else post(std::forward<F>(f)); }
        bool operator==(const strand &o) const { return impl == o.impl; }
        bool operator!=(const strand &o) const { return impl != o.impl; }
    };
    executor_type get_executor() noexcept { return executor_type(this); }
    detail::strand_queue *make_strand_queue() { auto *s = new detail::strand_queue{this, {}, false}; strands.push_back(s); return s; }
    // the harness' side
    std::vector<detail::op_ptr> ready; std::vector<detail::waiting> timers; std::vector<detail::strand_queue *> strands;
    detail::strand_queue *current = nullptr; int guards = 0;
    bool idle() const { if (!ready.empty() || !timers.empty()) return false; for (auto *s : strands) if (!s->q.empty()) return false; return true; }
    void complete(std::size_t i, const boost::system::error_code &ec) {
        auto w = std::move(timers[i].w); timers.erase(timers.begin() + (std::ptrdiff_t)i);
        ready.push_back(detail::make_op([w = std::move(w), ec]() { w->done(ec); }));
    }
    void run_ready(std::size_t i) { auto op = std::move(ready[i]); ready.erase(ready.begin() + (std::ptrdiff_t)i); op->run(); }
    void run_strand(detail::strand_queue *s) { auto op = std::move(s->q.front()); s->q.pop_front(); auto *prev = current; current = s; op->run(); current = prev; }
};
template <class F> void post(io_context::strand &s, F &&f) { s.post(std::forward<F>(f)); }
template <class F> void defer(io_context::strand &s, F &&f) { s.post(std::forward<F>(f)); }
template <class F> void dispatch(io_context::strand &s, F &&f) { s.dispatch(std::forward<F>(f)); }
template <class F> void post(const io_context::strand &s, F &&f) { s.post(std::forward<F>(f)); }
template <class F> void defer(const io_context::strand &s, F &&f) { s.post(std::forward<F>(f)); }
template <class F> void dispatch(const io_context::strand &s, F &&f) { s.dispatch(std::forward<F>(f)); }
template <class F> void post(io_context &c, F &&f) { auto op = detail::make_op<std::decay_t<F>>(std::forward<F>(f)); vp_asio::lock_t k; c.ready.push_back(std::move(op)); }
template <class F> void defer(io_context &c, F &&f) { post(c, std::forward<F>(f)); }
template <class F> void dispatch(io_context &c, F &&f) { post(c, std::forward<F>(f)); }
template <class F> struct bound_handler { io_context::strand s; F f; void operator()(const boost::system::error_code &ec) { s.dispatch([f = std::move(f), ec]() mutable { f(ec); }); } void operator()() { s.dispatch(std::move(f)); } };
template <class F> bound_handler<std::decay_t<F>> bind_executor(const io_context::strand &s, F &&f) { return {s, std::forward<F>(f)}; }
template <class E> class executor_work_guard {
    io_context *c;
  public:
    explicit executor_work_guard(const E &e) : c(&e.context()) { vp_asio::lock_t k; ++c->guards; }
    executor_work_guard(executor_work_guard &&o) noexcept : c(o.c) { o.c = nullptr; }
    ~executor_work_guard() { reset(); }
    bool owns_work() const noexcept { return c; }
    void reset() noexcept { if (c) { vp_asio::lock_t k; --c->guards; c = nullptr; } }
};
inline executor_work_guard<io_context::executor_type> make_work_guard(io_context &c) { return executor_work_guard<io_context::executor_type>(c.get_executor()); }
inline executor_work_guard<io_context::executor_type> make_work_guard(const io_context::strand &s) { return make_work_guard(s.context()); }
class steady_timer {
    io_context &c; std::chrono::steady_clock::time_point at{};
  public:
    using clock_type = std::chrono::steady_clock; using duration = clock_type::duration; using time_point = clock_type::time_point; using executor_type = io_context::executor_type;
    explicit steady_timer(io_context &c_) : c(c_) {}
    explicit steady_timer(const io_context::strand &s) : c(s.context()) {}
    steady_timer(const steady_timer &) = delete;
    ~steady_timer() { cancel(); }
    std::size_t expires_after(const duration &d) { auto n = cancel(); at = clock_type::now() + d; return n; }
    std::size_t expires_from_now(const duration &d) { return expires_after(d); }
    std::size_t expires_at(const time_point &t) { auto n = cancel(); at = t; return n; }
    time_point expiry() const { return at; }
    std::size_t cancel() { // completions which are already pending are not affected
        std::size_t n = 0; vp_asio::lock_t k;
        for (std::size_t i = 0; i < c.timers.size();) if (c.timers[i].timer == this) { c.complete(i, error::make(error::operation_aborted)); ++n; } else ++i;
        return n;
    }
    std::size_t cancel(boost::system::error_code &ec) { ec = {}; return cancel(); }
    template <class F> void async_wait(F &&f) { vp_asio::lock_t k(false); c.timers.push_back({this, at, std::unique_ptr<detail::wait_t>(new detail::wait_impl<std::decay_t<F>>(std::forward<F>(f)))}); }
};
}} // namespace boost::asio
