#include <algorithm>
/* Common part of the harnesses: a supervisor whose event loop is driven by the harness, recording actors, monitors. */
#pragma once
#include "vp.h"
#include <rotor.hpp>
#include <rotor/registry.h>
#include <vector>
#include <list>
#include <map>
#include <string>

namespace r = rotor;
namespace pt = r::pt;
namespace vp {
namespace to {
struct on_timer_trigger {}; struct state {}; struct timers_map {}; struct active_requests {}; struct locality_leader {}; struct queue {}; struct request_map {}; struct parent {}; struct points {}; struct alive {}; struct last_req_id {}; struct registry_address {};
}
}
namespace rotor {
template <> inline auto actor_base_t::access<vp::to::on_timer_trigger, request_id_t, bool>(request_id_t id, bool cancelled) noexcept { on_timer_trigger(id, cancelled); }
template <> inline auto &actor_base_t::access<vp::to::state>() noexcept { return state; }
template <> inline auto &actor_base_t::access<vp::to::timers_map>() noexcept { return timers_map; }
template <> inline auto &actor_base_t::access<vp::to::active_requests>() noexcept { return active_requests; }
template <> inline auto &supervisor_t::access<vp::to::locality_leader>() noexcept { return locality_leader; }
template <> inline auto &supervisor_t::access<vp::to::queue>() noexcept { return queue; }
template <> inline auto &supervisor_t::access<vp::to::request_map>() noexcept { return request_map; }
template <> inline auto &supervisor_t::access<vp::to::last_req_id>() noexcept { return last_req_id; }
template <> inline auto &supervisor_t::access<vp::to::registry_address>() noexcept { return registry_address; }
template <> inline auto &supervisor_t::access<vp::to::parent>() noexcept { return parent; }
template <> inline auto &plugin::lifetime_plugin_t::access<vp::to::points>() noexcept { return points; }
}
namespace vp {
inline r::state_t state_of(r::actor_base_t &a) { return a.access<to::state>(); }
using error_ptr = r::extended_error_ptr_t;

// ---------------------------------------------------------------- monitors
// `live` counts the monitored objects which have not been destroyed
struct world_t {
    int live = 0;               // monitored actors and supervisors alive
    int fatal = 0;              // system_context_t::on_error calls
    error_ptr fatal_reason;
    int timers_fired = 0, timers_cancelled = 0;
};
inline world_t *W = nullptr;

// A fatal error ends the program, unless the user decides otherwise; a harness says whether it may happen
inline void (*ON_FATAL)() = nullptr;
struct ctx_t : r::system_context_t {
    void on_error(r::actor_base_t *, const error_ptr &ec) noexcept override {
        ++W->fatal; W->fatal_reason = ec;
        if (ON_FATAL) { ON_FATAL(); vp_reach("fatal"); vp_end(); }
    }
    std::string identity() noexcept override { return "ctx"; }
};

// hooks common for actors and supervisors: the order of life cycle events
struct life_t {
    int stage = 0; // 0 constructed, 1 init_start, 2 init_finish, 3 on_start, 4 shutdown_start, 5 shutdown_finish
    int n_init_start = 0, n_init_finish = 0, n_start = 0, n_sstart = 0, n_sfinish = 0;
    int handled_after_down = 0;
    r::state_t last = r::state_t::NEW;
    life_t() { if (W) ++W->live; }
    ~life_t() { if (W) --W->live; }
    life_t(const life_t &) = delete;
    void to(int s, const char *m) { vp_check(s > stage, m); stage = s; }
};

// ---------------------------------------------------------------- supervisor with a harness driven loop
struct sup_config_t : r::supervisor_config_t {
    const void *locality = nullptr;
    std::string name;
    using r::supervisor_config_t::supervisor_config_t;
};
template <typename S> struct sup_config_builder_t : r::supervisor_config_builder_t<S> {
    using builder_t = typename S::template config_builder_t<S>;
    using parent_t = r::supervisor_config_builder_t<S>;
    using parent_t::parent_t;
    builder_t &&locality(const void *l) && { parent_t::config.locality = l; return std::move(*static_cast<builder_t *>(this)); }
    builder_t &&name(const char *l) && { parent_t::config.name = l; return std::move(*static_cast<builder_t *>(this)); }
};
struct sup_t;
struct timer_t { sup_t *sup; r::timer_handler_base_t *handler; pt::time_duration interval; };
// all the timers the loops of the harness know about, in the order they were started
inline std::vector<timer_t> *TIMERS = nullptr;

// ---------------------------------------------------------------- something happens at an arbitrary moment
// When set, it is called before every message of the localities (the way a handler of an unrelated actor could run there).
inline void (*BEFORE_MESSAGE)(r::message_base_t &) = nullptr;
struct delivery_t : r::plugin::delivery_plugin_t<r::plugin::default_local_delivery_t> {
    using parent_t = r::plugin::delivery_plugin_t<r::plugin::default_local_delivery_t>;
    using parent_t::parent_t;
    size_t process() noexcept override {
        if (!BEFORE_MESSAGE) return parent_t::process();
        auto *q = queue; size_t n = 0;
        while (q->size()) { // the messages are handed over one by one
            BEFORE_MESSAGE(*q->front());
            r::messages_queue_t one;
            one.emplace_back(std::move(q->front())); q->pop_front();
            queue = &one; n += parent_t::process(); queue = q;
        }
        return n;
    }
};
// Calls `fn` once: at the symbolic moment `at`, counted in messages
struct inject_t {
    vp_u64 at; unsigned tick = 0; bool fired = false; void (*fn)();
    static inline inject_t *me = nullptr;
    inject_t(const char *name, unsigned max, void (*fn_)()) : at{vp_range(name, 0, max)}, fn{fn_} { me = this; BEFORE_MESSAGE = &inject_t::step; }
    ~inject_t() { me = nullptr; BEFORE_MESSAGE = nullptr; }
    static void step(r::message_base_t &) { auto &m = *me; if (!m.fired && m.at == m.tick++) { m.fired = true; m.fn(); } }
    // the moment is after everything else
    void late() { if (!fired) { vp_assume(at >= tick); at = ~0ul; fired = true; fn(); } }
};

struct sup_t;
inline void (*ON_ENQUEUE)(sup_t &, r::message_base_t &) = nullptr; // a message is put into the inbound queue
struct sup_t : r::supervisor_t {
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::locality_plugin_t, delivery_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
        r::plugin::foreigners_support_plugin_t, r::plugin::child_manager_plugin_t, r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t,
        r::plugin::resources_plugin_t, r::plugin::starter_plugin_t>;
    using config_t = sup_config_t;
    template <typename S> using config_builder_t = sup_config_builder_t<S>;
    const void *loc;
    std::string nm;
    life_t life;
    int enqueued = 0;
    int child_down = 0, child_up = 0, child_failed = 0;
    explicit sup_t(sup_config_t &c) : r::supervisor_t(c), loc{c.locality}, nm{c.name} {
        r::supervisor_t *root = this;
        while (root->access<to::parent>()) root = root->access<to::parent>();
        if (!loc) loc = root;
    }
    r::address_ptr_t make_address() noexcept override { return instantiate_address(loc); }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::supervisor_t::configure(p);
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &m) { m.set_identity(nm.empty() ? "sup" : nm.c_str(), false); });
    }
    void do_start_timer(const pt::time_duration &i, r::timer_handler_base_t &h) noexcept override { TIMERS->push_back(timer_t{this, &h, i}); }
    void do_cancel_timer(r::request_id_t id) noexcept override {
        for (size_t i = 0; i < TIMERS->size(); ++i) {
            auto t = (*TIMERS)[i];
            if (t.sup == this && t.handler->request_id == id) {
                TIMERS->erase(TIMERS->begin() + (long)i);
                ++W->timers_cancelled;
                t.handler->owner->access<to::on_timer_trigger, r::request_id_t, bool>(id, true);
                return;
            }
        }
        vp_fail("a timer unknown to the event loop is cancelled");
    }
    void start() noexcept override {}
    void shutdown() noexcept override { do_shutdown(); }
    void enqueue(r::message_ptr_t m) noexcept override { ++enqueued; if (ON_ENQUEUE) ON_ENQUEUE(*this, *m); access<to::locality_leader>()->access<to::queue>().emplace_back(std::move(m)); }
    void init_start() noexcept override { ++life.n_init_start; life.to(1, "life cycle goes forward (supervisor init_start)"); r::supervisor_t::init_start(); }
    void init_finish() noexcept override { ++life.n_init_finish; life.to(2, "life cycle goes forward (supervisor init_finish)"); r::supervisor_t::init_finish(); }
    void on_start() noexcept override { ++life.n_start; life.to(3, "life cycle goes forward (supervisor on_start)"); r::supervisor_t::on_start(); }
    void shutdown_start() noexcept override { ++life.n_sstart; life.to(4, "life cycle goes forward (supervisor shutdown_start)"); r::supervisor_t::shutdown_start(); }
    void shutdown_finish() noexcept override { ++life.n_sfinish; life.to(5, "life cycle goes forward (supervisor shutdown_finish)"); r::supervisor_t::shutdown_finish(); }
    void on_child_init(r::actor_base_t *a, const error_ptr &ec) noexcept override { ++child_up; if (ec) ++child_failed; r::supervisor_t::on_child_init(a, ec); }
    void on_child_shutdown(r::actor_base_t *a) noexcept override { ++child_down; r::supervisor_t::on_child_shutdown(a); }
    r::messages_queue_t &leader_queue() { return access<to::locality_leader>()->access<to::queue>(); }
    bool is_leader() { return access<to::locality_leader>() == this; }
    using r::supervisor_t::do_process;
    using r::supervisor_t::instantiate_address;
};
using sup_ptr = r::intrusive_ptr_t<sup_t>;

inline size_t timers() { return TIMERS->size(); }
// what an event loop does when the timer expires
inline void fire_raw(size_t i) {
    auto t = (*TIMERS)[i];
    TIMERS->erase(TIMERS->begin() + (long)i);
    ++W->timers_fired;
    t.handler->owner->access<to::on_timer_trigger, r::request_id_t, bool>(t.handler->request_id, false);
}
inline size_t timer_of(r::actor_base_t *owner) { for (size_t i = 0; i < TIMERS->size(); ++i) if ((*TIMERS)[i].handler->owner == owner) return i; return (size_t)-1; }

// processes the localities in turn till all are quiet
inline void drain(std::initializer_list<sup_t *> leaders) {
    for (int round = 0; round < 64; ++round) {
        bool any = false;
        for (auto *s : leaders) if (!s->leader_queue().empty()) { any = true; s->do_process(); }
        if (!any) return;
    }
    vp_fail("the message queues never become empty");
}
inline void drain(sup_t *s) { drain({s}); }

// the root supervisor, optionally a child supervisor of the same loop and one with a loop of its own
struct tree_t {
    r::intrusive_ptr_t<ctx_t> ctx; sup_ptr root, near, far;
    explicit tree_t(bool with_near = false, bool with_far = false) : ctx(new ctx_t()) {
        root = ctx->create_supervisor<sup_t>().timeout(pt::milliseconds{10}).name("root").finish();
        if (with_near) near = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).name("near").finish();
        if (with_far) { static const char other = 0; far = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).locality(&other).name("far").finish(); }
    }
    void run() { if (far) drain({root.get(), far.get()}); else drain(root.get()); }
    void boot() { run(); vp_check(state_of(*root) == r::state_t::OPERATIONAL, "the tree starts"); }
    void down() { root->do_shutdown(); run(); vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down"); vp_check(W->fatal == 0, "no fatal error is reported"); }
};

// processes the localities in an arbitrary order till all are quiet
inline void pump(std::initializer_list<sup_t *> leaders) {
    for (int round = 0; round < 64; ++round) {
        sup_t *c[4]; unsigned n = 0;
        for (auto *s : leaders) if (s && !s->leader_queue().empty()) c[n++] = s;
        if (!n) return;
        c[n > 1 ? vp_choice("loop", n) : 0]->do_process();
    }
    vp_fail("the message queues never become empty");
}

// ---------------------------------------------------------------- actors
struct actor_t : r::actor_base_t {
    life_t life;
    std::vector<int> got;
    using r::actor_base_t::actor_base_t;
    void init_start() noexcept override { ++life.n_init_start; life.to(1, "life cycle goes forward (init_start)"); r::actor_base_t::init_start(); }
    void init_finish() noexcept override { ++life.n_init_finish; life.to(2, "life cycle goes forward (init_finish)"); r::actor_base_t::init_finish(); }
    void on_start() noexcept override { ++life.n_start; life.to(3, "life cycle goes forward (on_start)"); vp_check(state == r::state_t::INITIALIZED, "on_start runs in INITIALIZED state"); r::actor_base_t::on_start(); }
    void shutdown_start() noexcept override { ++life.n_sstart; life.to(4, "life cycle goes forward (shutdown_start)"); r::actor_base_t::shutdown_start(); }
    void shutdown_finish() noexcept override { ++life.n_sfinish; life.to(5, "life cycle goes forward (shutdown_finish)"); r::actor_base_t::shutdown_finish(); vp_check(state == r::state_t::SHUT_DOWN, "SHUT_DOWN after shutdown_finish"); }
    r::plugin::resources_plugin_t *res() { return resources; }
    using r::actor_base_t::state;
    using r::actor_base_t::address;
    using r::actor_base_t::supervisor;
    using r::actor_base_t::shutdown_reason;
    using r::actor_base_t::timers_map;
    using r::actor_base_t::active_requests;
};

inline bool quiet(r::actor_base_t &a) { return a.access<to::timers_map>().empty() && a.access<to::active_requests>().empty(); }
inline auto ms(long v) { return pt::milliseconds{v}; }

// a run of a harness: everything is released at the end and the heap is as it was
struct run_t {
    world_t world; std::vector<timer_t> tv; vp_u64 base;
    run_t() { TIMERS = &tv; W = &world; base = vp_live(); }
    void done() {
        world.fatal_reason.reset();
        vp_check(world.live == 0, "every actor and supervisor is destroyed");
        vp_check(tv.empty(), "no timer is left in the event loop");
        std::vector<timer_t>().swap(tv);
        vp_check(vp_live() == base, "nothing is leaked");
    }
    ~run_t() { W = nullptr; TIMERS = nullptr; }
};
} // namespace vp
