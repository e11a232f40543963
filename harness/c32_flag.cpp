// C32: a raised flag is noticed at the next poll, and the supervisor shuts down once; never before, never without
#include <vp_rotor.h>
#include <atomic>
using namespace vp;
struct kid_t : actor_t {
    using actor_t::actor_t; bool slow_init = false, slow_down = false, held = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow_init) { slow_init = false; held = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING); }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (slow_down && !held) { held = true; resources->acquire(); } }
    void let_go() { held = false; resources->release(); }
};
static std::atomic_bool FLAG; static bool SEEN_DOWN; static sup_t *S; static bool MANUAL; static bool RAISED;
static void raise_it() { FLAG = true; RAISED = true; }
static vp_u64 MAN; static unsigned TICK; static vp_u64 AT;
static void stop_it() { MANUAL = true; S->shutdown(); }
static void step(r::message_base_t &) {
    if (!RAISED && AT == TICK) raise_it();
    if (!MANUAL && MAN != ~0ul && MAN == TICK) stop_it();
    ++TICK;
}
int main() {
    run_t run;
    {
        FLAG = false; SEEN_DOWN = MANUAL = RAISED = false; TICK = 0; static const char other = 0;
        unsigned where = vp_choice("where", 3), polls = vp_choice("polls before", VP_THOROUGH ? 3 : 2), slow = VP_THOROUGH ? vp_choice("kid", 4) : 3 * vp_choice("kid", 2), manual = vp_choice("manual", !VP_THOROUGH && (where || !slow || polls) ? 2 : 3);
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t()); sup_ptr top, s;
        AT = vp_range("raised at", 0, 255); MAN = manual == 2 ? vp_range("manual at", 0, 255) : ~0ul;
        if (where) { top = ctx->create_supervisor<sup_t>().timeout(ms(100)).policy(r::supervisor_policy_t::shutdown_failed).finish(); drain(top.get()); }
        if (where == 0) s = ctx->create_supervisor<sup_t>().timeout(ms(100)).shutdown_flag(FLAG, ms(7)).finish();
        if (where == 1) s = top->create_actor<sup_t>().timeout(ms(90)).shutdown_flag(FLAG, ms(7)).finish();
        if (where == 2) s = top->create_actor<sup_t>().timeout(ms(90)).locality(&other).shutdown_flag(FLAG, ms(7)).finish();
        S = s.get(); auto k = s->create_actor<kid_t>().timeout(ms(50)).finish(); k->slow_init = slow & 1; k->slow_down = slow & 2;
        auto run_all = [&] { where == 2 ? drain({top.get(), s.get()}) : where ? drain(top.get()) : drain(s.get()); };
        auto poll = [&] { size_t n = 0, f = 0; for (size_t i = 0; i < timers(); ++i) if ((*TIMERS)[i].handler->owner == s.get() && (*TIMERS)[i].interval == ms(7)) { ++n; f = i; } vp_check(n <= 1, "the flag is polled by one timer"); return n ? f : (size_t)-1; };
        BEFORE_MESSAGE = step;
        run_all();
        if (k->held && !MANUAL) { vp_check(s->life.n_sstart == 0, "the flag isn't polled before the start"); k->let_go(); run_all(); }
        for (unsigned i = 0;; ++i) {
            if (k->held && s->life.n_sstart) { k->let_go(); run_all(); }
            if (MANUAL) break;
            bool raised = RAISED;
            vp_check(state_of(*s) == r::state_t::OPERATIONAL, "without the poll the supervisor isn't shut down by the flag"); vp_reach("operational");
            auto p = poll(); vp_check(p < timers(), "the flag is polled while the supervisor operates");
            if (!raised && i == polls) { if (manual == 1) { // shut down by somebody else, the poll in between changes nothing
                    vp_assume(AT >= TICK); AT = ~0ul; stop_it(); run_all(); vp_check(s->life.n_sstart == 1, "the supervisor is asked for shutdown");
                    if ((p = poll()) < timers()) { if (vp_choice("raised meanwhile", 2)) FLAG = true; fire_raw(p); run_all(); vp_reach("poll while shutting down"); }
                    break;
                } vp_assume(AT >= TICK); AT = ~0ul; raise_it(); raised = true; }
            fire_raw(p);
            if (raised) { vp_check(poll() == (size_t)-1, "the polling ends"); run_all(); vp_check(s->life.n_sstart == 1, "the raised flag is noticed at the first poll"); vp_reach("noticed"); if (k->held) { k->let_go(); run_all(); } break; }
            vp_check(poll() < timers(), "the polling goes on, while the flag isn't raised");
            run_all(); if (!MANUAL) vp_check(s->life.n_sstart == 0, "the supervisor isn't shut down without the flag");
        }
        if (k->held) { k->let_go(); run_all(); }
        BEFORE_MESSAGE = nullptr;
        vp_check(state_of(*s) == r::state_t::SHUT_DOWN && s->life.n_sstart == 1 && s->life.n_sfinish == 1, "the supervisor shuts down once"); vp_check(poll() == (size_t)-1, "no poll is left");
        vp_check(state_of(*k) == r::state_t::SHUT_DOWN, "with its child");
        if (top) { vp_check(state_of(*top) == r::state_t::OPERATIONAL, "the parent isn't affected"); FLAG = true; top->do_shutdown(); run_all(); vp_check(state_of(*top) == r::state_t::SHUT_DOWN, "the tree shuts down"); }
        vp_check(W->fatal == 0, "no fatal error is reported"); vp_reach("end");
    }
    run.done();
}
