// C34: an actor is built exactly from a complete configuration, in whatever order it is given; every setting takes effect
#include <vp_rotor.h>
#include <atomic>
using namespace vp;
#ifndef MODE
#define MODE 0
#endif
namespace vp { namespace to { struct poll {}; struct inbound_size {}; } }
namespace rotor {
template <> inline auto &supervisor_t::access<vp::to::poll>() noexcept { return poll_duration; }
template <> inline auto &supervisor_t::access<vp::to::inbound_size>() noexcept { return inbound_queue_size; }
}
struct kid_t : actor_t {
    using actor_t::actor_t; bool hold_init = true, hold_down = true;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (hold_init) resources->acquire(); }, r::plugin::config_phase_t::INITIALIZING);
    }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (hold_down) resources->acquire(); }
    void go() { hold_init = false; resources->release(); }
    void gone() { hold_down = false; resources->release(); }
};
struct plain_t : actor_t { using actor_t::actor_t; bool bad = false; void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (bad) { resources->acquire(); do_shutdown(); } }, r::plugin::config_phase_t::INITIALIZING); }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (bad) resources->release(); } };
static vp_u64 us(const pt::time_duration &d) { return (vp_u64)d.total_microseconds(); }
static pt::time_duration some(const char *n) { return pt::microseconds{(long)vp_range(n, 1, 1000000000ul)}; }
static void rejected(bool null, bool valid) {
    vp_check(null == !valid, "an actor is built exactly when its configuration is complete");
    vp_check(W->fatal == (valid ? 0 : 1), "a wrong configuration is reported once");
    if (!valid) { vp_check(W->fatal_reason && W->fatal_reason->ec == r::make_error_code(r::error_code_t::actor_misconfigured), "the error tells that the configuration is wrong"); W->fatal = 0; W->fatal_reason.reset(); }
}
#if MODE == 0
int main() {
    run_t run;
    {
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto root = ctx->create_supervisor<sup_t>().timeout(ms(10)).policy(r::supervisor_policy_t::shutdown_failed).finish();
        drain(root.get()); vp_check(state_of(*root) == r::state_t::OPERATIONAL, "the parent starts");
        bool has_i = false, has_s = false, esc = false, autod = false; vp_u64 init_us = 0, down_us = 0;
        bool failure = vp_choice("failure", 2);
        auto live = W->live;
        auto b = root->create_actor<kid_t>();
        for (int i = 0; i < (VP_THOROUGH ? 5 : 4); ++i) {
            unsigned what = vp_choice("setting", 6); if (!what) break;
            auto d = what <= 3 ? some("duration") : pt::time_duration{}; bool on = what > 3 ? vp_range("value", 0, 1) : false;
            switch (what) {
            case 1: (void)std::move(b).timeout(d); has_i = has_s = true; init_us = down_us = us(d); break;
            case 2: (void)std::move(b).init_timeout(d); has_i = true; init_us = us(d); break;
            case 3: (void)std::move(b).shutdown_timeout(d); has_s = true; down_us = us(d); break;
            case 4: (void)std::move(b).escalate_failure(on); esc = on; break;
            case 5: (void)std::move(b).autoshutdown_supervisor(on); autod = on; break;
            }
        }
        bool valid = has_i && has_s;
        vp_check(W->live == live, "nothing is built before finish()");
        auto k = std::move(b).finish();
        rejected(!k, valid);
        vp_check(state_of(*root) == r::state_t::OPERATIONAL, "the parent is unaffected");
        if (!valid) {
            vp_reach("rejected"); vp_check(W->live == live && timers() == 0 && root->leader_queue().empty(), "nothing is created from a wrong configuration");
            auto k2 = root->create_actor<kid_t>().timeout(ms(5)).finish(); k2->hold_down = false; drain(root.get()); k2->go(); drain(root.get()); vp_check(state_of(*k2) == r::state_t::OPERATIONAL, "the parent still creates actors");
        } else {
            vp_reach("built");
            drain(root.get()); auto i = timer_of(root.get()); vp_check(timers() == 1 && i == 0, "the parent waits for the initialization");
            vp_check(us((*TIMERS)[0].interval) == init_us, "the initialization is limited by the init timeout");
            k->go(); drain(root.get()); vp_check(state_of(*k) == r::state_t::OPERATIONAL && timers() == 0, "the actor starts");
            if (failure) k->do_shutdown(r::make_error("why", r::make_error_code(r::error_code_t::unknown_service))); else k->do_shutdown();
            drain(root.get()); vp_check(timers() == 1, "the parent waits for the shutdown"); vp_check(us((*TIMERS)[0].interval) == down_us, "the shutdown is limited by the shutdown timeout");
            vp_check(state_of(*k) == r::state_t::SHUTTING_DOWN, "the actor shuts down");
            k->gone(); drain(root.get()); vp_check(state_of(*k) == r::state_t::SHUT_DOWN, "the actor is down");
            bool down = (esc && failure) || autod; if (down) vp_reach("escalated");
            vp_check(state_of(*root) == (down ? r::state_t::SHUT_DOWN : r::state_t::OPERATIONAL), "the parent goes down, if the actor was built so");
        }
        k.reset();
        root->do_shutdown(); drain(root.get()); vp_check(state_of(*root) == r::state_t::SHUT_DOWN && W->fatal == 0, "the parent shuts down"); vp_reach("end");
    }
    run.done();
}
#else
int main() {
    run_t run;
    {
        std::atomic_bool flag{false}; static const char other = 0;
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        bool child = MODE == 2;
        sup_ptr top; r::address_ptr_t reg, reg_other;
        if (child) { top = ctx->create_supervisor<sup_t>().timeout(ms(100000)).policy(r::supervisor_policy_t::shutdown_failed).create_registry(vp_choice("registry above", 2)).finish(); drain(top.get()); reg = top->get_registry_address(); }
        auto live = W->live;
        bool has_i = false, has_s = false, own = false, ext = false, sync = false, flagged = false; vp_u64 init_us = 0, down_us = 0, flag_us = 0, poll_us = 1000, size = 64; auto pol = r::supervisor_policy_t::shutdown_self;
        auto build = [&](auto b) {
            // the mandatory settings are somewhere among the others
            unsigned with = vp_choice("mandatory", 4), n = VP_THOROUGH ? 3 : 2, at = (unsigned)vp_choice("mandatory at", n);
            for (unsigned i = 0; i < n; ++i) {
                if (i == at) {
                    auto d = some("duration"), d2 = some("duration2");
                    if (with == 1) { (void)std::move(b).timeout(d); has_i = has_s = true; init_us = down_us = us(d); }
                    if (with == 2) { (void)std::move(b).init_timeout(d); has_i = true; init_us = us(d); }
                    if (with == 3) { (void)std::move(b).init_timeout(d); (void)std::move(b).shutdown_timeout(d2); has_i = has_s = true; init_us = us(d); down_us = us(d2); }
                }
                unsigned what = vp_choice("setting", with == 0 || with == 2 ? 5 : 9); if (!what) continue;
                bool on = what <= 4 ? vp_range("value", 0, 1) : false;
                switch (what) {
                case 1: pol = (r::supervisor_policy_t)(1 + (int)on); (void)std::move(b).policy(pol); break;
                case 2: own = on; (void)std::move(b).create_registry(on); break;
                case 3: sync = on; (void)std::move(b).synchronize_start(on); break;
                case 4: ext = on; (void)std::move(b).registry_address(on ? (reg ? reg : reg_other) : r::address_ptr_t{}); if (!(reg || reg_other)) ext = false; break;
                case 5: { auto d = some("poll"); flagged = true; flag_us = us(d); (void)std::move(b).shutdown_flag(flag, d); break; }
                case 6: { auto d = some("spin"); poll_us = us(d); (void)std::move(b).poll_duration(d); break; }
                case 7: size = vp_choice("size", 2) ? 16 : 1; (void)std::move(b).inbound_queue_size(size); break;
                case 8: (void)std::move(b).locality(child ? nullptr : &other); break;
                }
            }
            return std::move(b).finish();
        };
        auto ctx2 = r::intrusive_ptr_t<ctx_t>(new ctx_t()); sup_ptr foreign;
        if (!child) { foreign = ctx2->create_supervisor<sup_t>().timeout(ms(100000)).create_registry().finish(); drain(foreign.get()); reg_other = foreign->get_registry_address(); live = W->live; }
        sup_ptr s = child ? build(top->create_actor<sup_t>()) : build(ctx->create_supervisor<sup_t>());
        bool valid = has_i && has_s && !(own && ext);
        rejected(!s, valid);
        if (child) vp_check(state_of(*top) == r::state_t::OPERATIONAL, "the parent is unaffected");
        if (!valid) {
            vp_reach("rejected"); vp_check(W->live == live, "nothing is created from a wrong configuration");
            sup_ptr again = child ? top->create_actor<sup_t>().timeout(ms(5)).finish() : ctx->create_supervisor<sup_t>().timeout(ms(5)).finish();
            vp_check((bool)again && W->fatal == 0, "a correct one is created afterwards"); drain(child ? top.get() : again.get()); vp_check(state_of(*again) == r::state_t::OPERATIONAL, "and it starts");
            if (!child) { again->do_shutdown(); drain(again.get()); }
        } else {
            vp_reach("built");
            auto lead = child ? top : s;
            auto k = s->create_actor<kid_t>().timeout(ms(50000)).finish(), k2 = s->create_actor<kid_t>().timeout(ms(50000)).finish(); k->hold_down = k2->hold_down = false; k2->hold_init = false;
            drain(lead.get());
            unsigned seen = 0; for (auto &x : *TIMERS) if (us(x.interval) == init_us) ++seen;
            vp_check(seen >= 1, "the initialization is limited by the init timeout");
            vp_check(s->access<to::poll>().total_microseconds() == (long)poll_us && s->access<to::inbound_size>() == size, "the queue settings take effect");
            auto &ra = s->get_registry_address();
            if (own) { vp_check(ra && ra != reg && ra != reg_other && &ra->supervisor == s.get(), "the supervisor has a registry of its own"); }
            else if (ext) vp_check(ra == (reg ? reg : reg_other), "the given registry is used");
            else vp_check(ra == reg, "the registry of the parent is used, if any");
            vp_check(state_of(*k2) == (sync ? r::state_t::INITIALIZED : r::state_t::OPERATIONAL), "synchronized start holds back the children which are ready, otherwise they start at once");
            vp_check(state_of(*s) == r::state_t::INITIALIZING, "the supervisor waits for its children");
            // the policy
            if (vp_choice("bad child", 2)) {
                auto bad = s->create_actor<plain_t>().timeout(ms(40000)).finish(); bad->bad = true; k->hold_init = true;
                size_t i = 0; drain(lead.get());
                vp_check((int)state_of(*bad) >= (int)r::state_t::SHUTTING_DOWN, "the child fails"); (void)i;
                if (pol == r::supervisor_policy_t::shutdown_self) vp_check((int)state_of(*s) >= (int)r::state_t::SHUTTING_DOWN, "shut-down-self: the supervisor goes down");
                if ((int)state_of(*s) >= (int)r::state_t::SHUTTING_DOWN) vp_reach("down by child");
                k->go(); drain(lead.get());
                bad.reset();
            } else {
                k->go(); drain(lead.get());
                vp_check(state_of(*s) == r::state_t::OPERATIONAL && state_of(*k2) == r::state_t::OPERATIONAL, "the supervisor starts with its children");
                unsigned polls = 0; for (auto &x : *TIMERS) if (x.handler->owner == s.get()) { ++polls; vp_check(us(x.interval) == flag_us, "the flag is polled with the given period"); }
                vp_check(polls == (flagged ? 1u : 0u), "the shutdown flag is polled when it was given");
                if (flagged) {
                    auto i = timer_of(s.get()); fire_raw(i); drain(lead.get()); vp_check(state_of(*s) == r::state_t::OPERATIONAL, "the flag is not raised");
                    flag = true; i = timer_of(s.get()); vp_check(i < timers(), "the polling goes on"); fire_raw(i);
                    drain(lead.get()); vp_check(state_of(*s) == r::state_t::SHUT_DOWN, "the raised flag shuts down the supervisor"); vp_reach("flag");
                } else {
                    k2->hold_down = true;
                    if (child) {
                        s->do_shutdown(); drain(lead.get()); bool seen2 = false; for (auto &x : *TIMERS) if (x.handler->owner == top.get()) { vp_check(us(x.interval) == down_us, "the shutdown is limited by the shutdown timeout"); seen2 = true; } vp_check(seen2, "the shutdown is limited");
                        k2->gone(); drain(lead.get());
                    } else k2->hold_down = false;
                }
            }
            if (!child) { s->do_shutdown(); drain(s.get()); vp_check(state_of(*s) == r::state_t::SHUT_DOWN, "the supervisor shuts down"); 
                // a context has a single root supervisor
                auto l2 = W->live; auto no = ctx->create_supervisor<sup_t>().timeout(ms(5)).finish();
                vp_check(!no && W->fatal == 1 && W->live == l2, "the second root supervisor is rejected"); vp_check(W->fatal_reason->ec == r::make_error_code(r::error_code_t::supervisor_defined), "the error tells that there is a supervisor"); W->fatal = 0; W->fatal_reason.reset();
            }
        }
        if (child) { top->do_shutdown(); drain(top.get()); vp_check(state_of(*top) == r::state_t::SHUT_DOWN, "the tree shuts down"); if (s) vp_check(state_of(*s) == r::state_t::SHUT_DOWN, "the child is down with the tree"); }
        if (foreign) { foreign->do_shutdown(); drain(foreign.get()); }
        vp_check(W->fatal == 0, "no fatal error is reported"); vp_reach("end");
    }
    run.done();
}
#endif
