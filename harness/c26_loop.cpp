// The thread backend's loop with messages from other threads: every interleaving of the senders' and the loop's
// synchronization operations (bounded number of preemptions).
#include "vp_rotor.h"
#include "rotor/thread.hpp"
namespace rth = rotor::thread;
#ifndef SENDERS
#define SENDERS 2
#endif
#ifndef COUNT
#define COUNT 1
#endif
namespace { constexpr vp_u64 START = 1000000000000ul; volatile vp_u64 NOW = START; }
extern "C" vp_u64 vp_now_ns(void) { vp_u64 n = NOW; NOW = n + 1000; return n; }
namespace {
struct note_t { int sender, no; };
// ghost state: volatile accesses are no part of the program under test
volatile int SENT[SENDERS], HANDLED[SENDERS], IDLE; volatile int STOP;
struct receiver_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { auto s = p.subscribe_actor(&receiver_t::on_note); if (vp_io) s->tag_io(); });
    }
    static bool vp_io;
    void on_note(r::message_t<note_t> &m) noexcept {
        int s = m.payload.sender; vp_check(HANDLED[s] == m.payload.no, "each message of a sender is handled once and in order"); HANDLED[s] = HANDLED[s] + 1;
    }
};
bool receiver_t::vp_io;
struct ctx_t : rth::system_context_thread_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); }
};
r::intrusive_ptr_t<rth::supervisor_thread_t> SUP, SUB; r::address_ptr_t TO[2];
void *loop(void *c) { static_cast<ctx_t *>(c)->run(); return nullptr; }
void *sender(void *a) {
    int me = (int)(long)a;
    for (int k = 0; k < COUNT; ++k) {
        auto &to = TO[me & 1];
        to->supervisor.enqueue(r::make_message<note_t>(to, note_t{me, k}));
        SENT[me] = k + 1;
    }
    return nullptr;
}
}
extern "C" void vp_timed_out(vp_u64 d) {
    for (int i = 0; i < SENDERS; ++i) vp_check(HANDLED[i] == SENT[i], "the loop does not sleep while a message is waiting");
    vp_check(!STOP, "the loop does not sleep while the shutdown is pending");
    IDLE = IDLE + 1; vp_check(IDLE < 4, "the senders make progress"); if (d > NOW) NOW = d;
}
int main() {
    auto live = vp_live(); receiver_t::vp_io = IO; SUB.reset(); TO[0].reset(); TO[1].reset();
    {
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto b = ctx->create_supervisor<rth::supervisor_thread_t>();
        (void)std::move(b).timeout(pt::seconds{1}); (void)std::move(b).poll_duration(pt::microseconds{POLL}); (void)std::move(b).inbound_queue_size(4);
        SUP = std::move(b).finish();
        auto rc = SUP->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[0] = rc->get_address();
        SUB = SUP->create_actor<rth::supervisor_thread_t>().timeout(pt::seconds{1}).inbound_queue_size(4).finish();
        auto rc2 = SUB->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[1] = rc2->get_address();
        SUP->do_process();
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        rc.reset(); rc2.reset();
        auto l = vp_thread_create(loop, ctx.get()); vp_u64 s[SENDERS];
        for (int i = 0; i < SENDERS; ++i) s[i] = vp_thread_create(sender, (void *)(long)i);
        for (int i = 0; i < SENDERS; ++i) vp_thread_join(s[i]);
        SUP->shutdown(); STOP = 1;
        vp_thread_join(l);
        for (int i = 0; i < SENDERS; ++i) { vp_check(HANDLED[i] == COUNT, "every message is handled"); vp_log("handled", HANDLED[i]); }
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down"); 
        TO[0].reset(); TO[1].reset(); SUB.reset(); SUP.reset();
    }
    vp_check(vp_live() == live, "everything is released"); vp_log("idle", IDLE);
    vp_reach("end");
    return 0;
}
