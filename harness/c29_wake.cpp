// ev backend with messages from other threads: the loop sleeps until ev_async_send() is called; every interleaving of the senders'
// and the loop's synchronization operations (bounded number of preemptions).
#include "vp_rotor.h"
#include "rotor/ev.hpp"
#include <condition_variable>
#include <mutex>
namespace re = rotor::ev;
#ifndef SENDERS
#define SENDERS 2
#endif
#ifndef COUNT
#define COUNT 1
#endif
namespace { constexpr vp_u64 START = 1000000000000ul; volatile vp_u64 NOW = START; }
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
extern "C" void vp_timed_out(vp_u64) { vp_fail("the loop does not wait for a while"); }
namespace {
struct note_t { int sender, no; };
volatile int HANDLED[SENDERS];
struct receiver_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&receiver_t::on_note); }); }
    void on_note(r::message_t<note_t> &m) noexcept {
        int s = m.payload.sender; vp_check(HANDLED[s] == m.payload.no, "each message of a sender is handled once and in order"); HANDLED[s] = HANDLED[s] + 1;
    }
};
struct ctx_t : r::system_context_t { void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
}
struct ev_loop { std::mutex m; std::condition_variable c; ev_async *async[4]; int n = 0, timers = 0; };
namespace {
struct ev_loop *EV;
r::intrusive_ptr_t<re::supervisor_ev_t> SUP, SUB; r::address_ptr_t TO[2];
void *loop(void *) { // ends with the supervisor
    while ((int)vp::state_of(*SUP) != (int)r::state_t::SHUT_DOWN) {
        ev_async *w = nullptr;
        { std::unique_lock<std::mutex> l(EV->m); for (;;) { for (int i = 0; i < EV->n && !w; ++i) if (EV->async[i]->sent) w = EV->async[i]; if (w) break; EV->c.wait(l); } w->sent = 0; }
        w->cb(EV, w, EV_ASYNC);
    }
    return nullptr;
}
void *sender(void *a) {
    int me = (int)(long)a;
    for (int k = 0; k < COUNT; ++k) { auto &to = TO[me & 1]; to->supervisor.enqueue(r::make_message<note_t>(to, note_t{me, k})); }
    return nullptr;
}
}
extern "C" {
ev_tstamp ev_now(struct ev_loop *) noexcept { return 1; }
void ev_now_update(struct ev_loop *) noexcept {}
ev_tstamp ev_time(void) noexcept { return 1; }
void ev_async_start(struct ev_loop *l, ev_async *w) noexcept { if (w->active) return; std::unique_lock<std::mutex> k(l->m); w->active = 1; w->sent = 0; l->async[l->n] = w; l->n = l->n + 1; }
void ev_async_stop(struct ev_loop *l, ev_async *w) noexcept { if (!w->active) return; std::unique_lock<std::mutex> k(l->m); for (int i = 0; i < l->n; ++i) if (l->async[i] == w) { l->n = l->n - 1; l->async[i] = l->async[l->n]; break; } w->active = 0; }
void ev_async_send(struct ev_loop *l, ev_async *w) noexcept { std::unique_lock<std::mutex> k(l->m); w->sent = 1; l->c.notify_one(); }
void ev_timer_start(struct ev_loop *l, ev_timer *w) noexcept { l->timers = l->timers + 1; w->active = 1; }
void ev_timer_stop(struct ev_loop *l, ev_timer *w) noexcept { if (w->active) l->timers = l->timers - 1; w->active = 0; }
void ev_loop_destroy(struct ev_loop *) {}
}
int main() {
    auto live = vp_live(); SUB.reset(); TO[0].reset(); TO[1].reset(); EV = new struct ev_loop();
    {
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto b = ctx->create_supervisor<re::supervisor_ev_t>(); (void)std::move(b).timeout(pt::seconds{1}); (void)std::move(b).inbound_queue_size(4); (void)std::move(b).loop(EV); (void)std::move(b).loop_ownership(false);
        SUP = std::move(b).finish();
        auto rc = SUP->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[0] = rc->get_address();
        SUB = SUP->create_actor<re::supervisor_ev_t>().timeout(pt::seconds{1}).inbound_queue_size(4).loop(EV).loop_ownership(false).finish();
        auto rc2 = SUB->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[1] = rc2->get_address();
        SUP->do_process();
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        rc.reset(); rc2.reset();
        auto l = vp_thread_create(loop, nullptr); vp_u64 s[SENDERS];
        for (int i = 0; i < SENDERS; ++i) s[i] = vp_thread_create(sender, (void *)(long)i);
        for (int i = 0; i < SENDERS; ++i) vp_thread_join(s[i]);
        SUP->shutdown();
        vp_thread_join(l);
        for (int i = 0; i < SENDERS; ++i) { vp_check(HANDLED[i] == COUNT, "every message is handled"); vp_log("handled", HANDLED[i]); }
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down"); vp_check(!EV->n && !EV->timers, "nothing is left in the loop");
        TO[0].reset(); TO[1].reset(); SUB.reset(); SUP.reset();
    }
    delete EV;
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
