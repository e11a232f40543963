// Stand-in for the parts of wxWidgets which the backend uses; the harness decides which event is processed next.
#pragma once
#include <cstddef>
#include <deque>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
namespace vp_wx {
struct event_t { virtual void run() = 0; virtual ~event_t() = default; };
template <class F> struct event_impl : event_t { F f; explicit event_impl(F f_) : f(std::move(f_)) {} void run() override { f(); } };
}
class wxEvtHandler {
  public:
    std::deque<std::unique_ptr<vp_wx::event_t>> pending; // processed in the order of posting
    virtual ~wxEvtHandler() = default;
    template <class F> void CallAfter(const F &f) { pending.push_back(std::unique_ptr<vp_wx::event_t>(new vp_wx::event_impl<F>(f))); }
};
