// The thread backend's loop with a symbolic clock: timers are started and cancelled at any place (a plain handler, a handler
// marked as blocking, a timer's callback, before the loop runs); a blocking handler takes any time.
#include "vp_rotor.h"
#include "rotor/thread.hpp"
namespace rth = rotor::thread;
namespace {
vp_u64 NOW = 1000000000000ul, STEP = 0;   // the clock; reading it takes STEP
constexpr vp_u64 us = 1000;
}
extern "C" vp_u64 vp_now_ns(void) { NOW += STEP; return NOW; }
namespace {
enum { N = VP_THOROUGH ? 4 : 3 };
struct slot_t { bool used, pending; r::request_id_t id; vp_u64 bound; int fired, cancelled; };
slot_t S[N];
struct tick_t {}; struct io_tick_t {};
#ifdef POLL
constexpr vp_u64 UNIT = 500, LATE = 3;
#else
constexpr vp_u64 UNIT = 1, LATE = 25;
#endif
int BUDGET; 
struct worker_t : vp::actor_t {
    using vp::actor_t::actor_t;
    template <int K> void on_timer(r::request_id_t id, bool cancelled) { trigger(K, id, cancelled); }
    void trigger(int k, r::request_id_t id, bool cancelled) {
        auto &s = S[k];
        vp_check(s.used && s.id == id, "the callback tells the timer's id");
        vp_check(s.fired + s.cancelled == 0, "a timer triggers once");
        if (cancelled) { s.pending = false; ++s.cancelled; vp_log("cancelled", k); return; }
        ++s.fired; vp_log("fired", k);
        vp_check(s.pending, "a cancelled timer does not trigger");
        s.pending = false;
        vp_check(NOW + 4 * STEP >= s.bound, "a timer triggers only when its deadline is reached");
        for (int i = 0; i < N; ++i) if (i != k && S[i].pending) vp_check(S[i].bound + 2 * STEP >= s.bound, "timers trigger in the order of their deadlines");
        act("timer");
    }
    void start(int k, vp_u64 d) {
        auto &s = S[k]; s.used = true;
        auto bound = NOW + d * us; auto i = pt::microseconds{(long)d};
        switch (k) { case 0: s.id = start_timer(i, *this, &worker_t::on_timer<0>); break; case 1: s.id = start_timer(i, *this, &worker_t::on_timer<1>); break;
                     case 2: s.id = start_timer(i, *this, &worker_t::on_timer<2>); break; default: s.id = start_timer(i, *this, &worker_t::on_timer<3>); }
        s.bound = bound; s.pending = true; // starting a timer in a blocking handler might trigger the others
    }
    void act(const char *where, bool io = false) {
        bool SPENT = false;
        while (BUDGET > 0 && state == r::state_t::OPERATIONAL) {
            unsigned op = vp_choice(where, io && !SPENT ? 7 : 6);
            if (op == 0) return;
            --BUDGET;
            if (op == 1) { for (int k = 0; k < N; ++k) if (!S[k].used) { start(k, UNIT * vp_range("interval", 1, 20000 / UNIT)); break; } }
            else if (op == 2) { unsigned n = 0; int c[N]; for (int k = 0; k < N; ++k) if (S[k].pending) c[n++] = k;
                if (n) { int k = c[vp_choice("which", n)]; S[k].pending = false; auto was = S[k].cancelled; cancel_timer(S[k].id); vp_check(S[k].cancelled == was + 1 && S[k].fired == 0, "a cancelled timer reports it, once"); } }
            else if (op == 3) { send<tick_t>(address); return; }
            else if (op == 4) { send<io_tick_t>(address); return; }
            else if (op == 5) { do_shutdown(); return; }
            else { SPENT = true; NOW += vp_range("work", 1, 30000 / UNIT) * UNIT * us; } // it takes time (only a handler marked as blocking may do so)
        }
    }
    void on_tick(r::message_t<tick_t> &) noexcept { act("tick"); }
    void on_io(r::message_t<io_tick_t> &) noexcept { act("io", true); }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        vp::actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&worker_t::on_tick); p.subscribe_actor(&worker_t::on_io)->tag_io(); });
    }
    void on_start() noexcept override { vp::actor_t::on_start(); if (!STEP && vp_choice("boot", 2)) { start(0, UNIT * vp_range("interval", 1, 20000 / UNIT)); send<io_tick_t>(address); --BUDGET; } else act("start"); }
};
struct ctx_t : rth::system_context_thread_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); }
};
r::intrusive_ptr_t<rth::supervisor_thread_t> SUP; int idle; bool stopping;
}
extern "C" void vp_timed_out(vp_u64 d) {
    vp_u64 lo = 0; bool any = false;
    for (int i = 0; i < N; ++i) if (S[i].pending) { any = true; vp_check(d <= S[i].bound + 6 * STEP, "the loop does not sleep past the deadline of a timer"); }
    if (!any) { if (!stopping) { stopping = true; SUP->shutdown(); } else { vp_check(++idle < 3, "the loop makes progress"); } NOW += 1; return; } // an external shutdown
    // a wait ends a bit late; the clock goes on
    if (d > NOW) NOW = d; 
    NOW += 1 + vp_range("late", 0, LATE) * 1000 * us;
   
}
int main() {
    vp::run_t run;
    BUDGET = VP_THOROUGH ? 5 : 4;
#ifdef POLL
    BUDGET -= 2;
    STEP = 400 * us;
#endif
    {
        r::intrusive_ptr_t<ctx_t> ctx{new ctx_t()};
        NOW += vp_choice("before", 2) * 1000000 * us;    // the program takes its time before the loop runs
        SUP = ctx->create_supervisor<rth::supervisor_thread_t>().timeout(pt::milliseconds{100}).poll_duration(pt::milliseconds{STEP ? 1 : 0}).finish();
        auto w = SUP->create_actor<worker_t>().timeout(pt::milliseconds{100}).finish();
        NOW += vp_choice("before2", 2) * 1000000 * us;
       
        SUP->start();
        ctx->run();
        vp_check(w->life.n_start == 1, "the actor starts");
        vp_check(vp::state_of(*SUP) == r::state_t::SHUT_DOWN && vp::state_of(*w) == r::state_t::SHUT_DOWN, "the loop ends when its supervisor is down");
        for (int i = 0; i < N; ++i) if (S[i].used) vp_check(S[i].fired + S[i].cancelled == 1, "every timer either triggers or is cancelled, once");
        SUP.reset(); w.reset();
    }
    vp_reach("end");
    run.done();
}
