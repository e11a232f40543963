// Helpers of the demonstrations: a supervisor which is driven by hand and a main() which reports failed expectations.
#pragma once
#include <rotor.hpp>
#include <rotor/registry.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <string>
#include <vector>

namespace r = rotor;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); std::fflush(stdout); std::_Exit(3); } } while (0)

namespace to { struct on_timer_trigger {}; struct state {}; struct queue {}; struct leader {}; struct parent {}; struct registry {}; }
namespace rotor {
template <> inline auto actor_base_t::access<::to::on_timer_trigger, request_id_t, bool>(request_id_t id, bool cancelled) noexcept { on_timer_trigger(id, cancelled); }
template <> inline auto &actor_base_t::access<::to::state>() noexcept { return state; }
template <> inline auto &supervisor_t::access<::to::queue>() noexcept { return queue; }
template <> inline auto &supervisor_t::access<::to::leader>() noexcept { return locality_leader; }
template <> inline auto &supervisor_t::access<::to::parent>() noexcept { return parent; }
template <> inline auto &supervisor_t::access<::to::registry>() noexcept { return registry_address; }
}
inline r::state_t state_of(r::actor_base_t &a) { return a.access<to::state>(); }
inline int fatals = 0;
struct ctx_t : r::system_context_t { void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { ++fatals; } };
using ctx_ptr = r::intrusive_ptr_t<ctx_t>;

struct sup_config_t : r::supervisor_config_t { const void *locality = nullptr; using r::supervisor_config_t::supervisor_config_t; };
template <typename S> struct sup_builder_t : r::supervisor_config_builder_t<S> {
    using builder_t = typename S::template config_builder_t<S>;
    using parent_t = r::supervisor_config_builder_t<S>;
    using parent_t::parent_t;
    builder_t &&locality(const void *l) && { parent_t::config.locality = l; return std::move(*static_cast<builder_t *>(this)); }
};
struct sup_t;
struct timer_t_ { sup_t *sup; r::timer_handler_base_t *h; r::pt::time_duration interval; };
inline std::deque<timer_t_> timers;
struct sup_t : r::supervisor_t {
    using config_t = sup_config_t;
    template <typename S> using config_builder_t = sup_builder_t<S>;
    const void *loc;
    explicit sup_t(sup_config_t &c) : r::supervisor_t(c), loc{c.locality} {
        r::supervisor_t *root = this;
        while (root->access<to::parent>()) root = root->access<to::parent>();
        if (!loc) loc = root;
    }
    r::address_ptr_t make_address() noexcept override { return instantiate_address(loc); }
    void do_start_timer(const r::pt::time_duration &i, r::timer_handler_base_t &h) noexcept override { timers.push_back({this, &h, i}); }
    void do_cancel_timer(r::request_id_t id) noexcept override {
        for (size_t i = 0; i < timers.size(); ++i) {
            auto t = timers[i];
            if (t.sup == this && t.h->request_id == id) { timers.erase(timers.begin() + long(i)); t.h->owner->access<to::on_timer_trigger, r::request_id_t, bool>(id, true); return; }
        }
    }
    void start() noexcept override {}
    void shutdown() noexcept override { do_shutdown(); }
    void enqueue(r::message_ptr_t m) noexcept override { access<to::leader>()->access<to::queue>().emplace_back(std::move(m)); }
    r::messages_queue_t &q() { return access<to::leader>()->access<to::queue>(); }
    using r::supervisor_t::do_process;
};
using sup_ptr = r::intrusive_ptr_t<sup_t>;
inline void fire(size_t i) { auto t = timers[i]; timers.erase(timers.begin() + long(i)); t.h->owner->access<to::on_timer_trigger, r::request_id_t, bool>(t.h->request_id, false); }
inline long timer_of(r::actor_base_t *o) { for (size_t i = 0; i < timers.size(); ++i) if (timers[i].h->owner == o) return long(i); return -1; }
inline void drain(std::initializer_list<sup_t *> l) {
    for (int n = 0; n < 1000; ++n) { bool any = false; for (auto *s : l) if (!s->q().empty()) { any = true; s->do_process(); } if (!any) return; }
    EXPECT(!"the queues become empty");
}
inline void drain(sup_t *s) { drain({s}); }
inline auto ms(long v) { return r::pt::milliseconds{v}; }
inline ctx_ptr make_ctx() { return ctx_ptr(new ctx_t()); }
template <typename C> sup_ptr make_root(C &ctx) { return ctx->template create_supervisor<sup_t>().timeout(ms(100)).finish(); }
inline void down(sup_ptr &s, std::initializer_list<sup_t *> l) { s->do_shutdown(); drain(l); EXPECT(state_of(*s) == r::state_t::SHUT_DOWN); }
