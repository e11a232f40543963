// asio backend, run by one or two threads, with messages from other threads: every interleaving of the senders'
// and the loops' synchronization operations (bounded number of preemptions).
#include "vp_rotor.h"
#include "rotor/asio.hpp"
#include <condition_variable>
#include <mutex>
namespace ra = rotor::asio; namespace as = boost::asio;
#ifndef SENDERS
#define SENDERS 2
#endif
#ifndef COUNT
#define COUNT 1
#endif
#ifndef STRANDS
#define STRANDS 2
#endif
#ifndef TOWARDS
#define TOWARDS 0
#endif
#ifndef WORKERS
#define WORKERS 2
#endif
namespace vp_asio { std::mutex M; std::condition_variable C; }
namespace { constexpr vp_u64 START = 1000000000000ul; volatile vp_u64 NOW = START; }
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
extern "C" void vp_timed_out(vp_u64) { vp_fail("the loop does not wait for a while"); }
namespace {
struct note_t { int sender, no; };
volatile int HANDLED[SENDERS];
struct receiver_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&receiver_t::on_note); }); }
    void on_note(r::message_t<note_t> &m) noexcept {
        int s = m.payload.sender; vp_check(HANDLED[s] == m.payload.no, "each message of a sender is handled once and in order"); HANDLED[s] = HANDLED[s] + 1;
    }
};
struct ctx_t : ra::system_context_asio_t { using ra::system_context_asio_t::system_context_asio_t; void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
as::io_context *IO; volatile int STOP, BUSY;
r::intrusive_ptr_t<ra::supervisor_asio_t> SUP, SUB; r::address_ptr_t TO[2];
// a thread which runs the context: takes a strand with work, which no other thread runs. Completions of timers are not run before the end.
// a thread which runs the context: takes a strand, which no other thread runs, or a ready completion. Timers do not expire.
void *loop(void *) {
    for (;;) {
        as::detail::strand_queue *s = nullptr; as::detail::op_ptr op;
        {
            std::unique_lock<std::mutex> l(vp_asio::M);
            for (;;) {
                bool busy = BUSY > 0 || !STOP;
                for (auto *q : IO->strands) { if (!s && !q->running && !q->q.empty()) s = q; }
                if (s) { s->running = true; op = std::move(s->q.front()); s->q.pop_front(); break; }
                if (!IO->ready.empty()) { op = std::move(IO->ready.front()); IO->ready.erase(IO->ready.begin()); break; }
                if (!busy) { vp_asio::C.notify_all(); return nullptr; }
                vp_asio::C.wait(l);
            }
            BUSY = BUSY + 1;
        }
        op->run(); op.reset();
        { std::unique_lock<std::mutex> l(vp_asio::M); BUSY = BUSY - 1; if (s) s->running = false; vp_asio::C.notify_all(); }
    }
}
void *sender(void *a) {
    int me = (int)(long)a;
    for (int k = 0; k < COUNT; ++k) { auto &to = TO[(me + TOWARDS) & 1]; to->supervisor.enqueue(r::make_message<note_t>(to, note_t{me, k})); }
    return nullptr;
}
}
int main() {
    auto live = vp_live(); SUB.reset(); TO[0].reset(); TO[1].reset(); STOP = BUSY = 0; IO = new as::io_context();
    {
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t(*IO)); std::shared_ptr<as::io_context::strand> st[2];
        st[0] = std::make_shared<as::io_context::strand>(*IO); st[1] = STRANDS == 2 ? std::make_shared<as::io_context::strand>(*IO) : st[0];
        auto b = ctx->create_supervisor<ra::supervisor_asio_t>(); (void)std::move(b).timeout(pt::seconds{1}); (void)std::move(b).strand(st[0]); (void)std::move(b).poll_duration(pt::microseconds{0}); (void)std::move(b).inbound_queue_size(4);
        SUP = std::move(b).finish();
        auto rc = SUP->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[0] = rc->get_address();
        SUB = SUP->create_actor<ra::supervisor_asio_t>().timeout(pt::seconds{1}).strand(st[1]).poll_duration(pt::microseconds{0}).inbound_queue_size(4).finish();
        auto rc2 = SUB->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[1] = rc2->get_address();
        SUP->start(); STOP = 1; loop(nullptr); STOP = 0;
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::OPERATIONAL && (int)vp::state_of(*rc2) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        rc.reset(); rc2.reset();
        vp_u64 l[WORKERS], s[SENDERS];
        for (int i = 0; i < WORKERS; ++i) l[i] = vp_thread_create(loop, nullptr);
        for (int i = 0; i < SENDERS; ++i) s[i] = vp_thread_create(sender, (void *)(long)i);
        for (int i = 0; i < SENDERS; ++i) vp_thread_join(s[i]);
        SUP->shutdown(); { vp_asio::lock_t k; STOP = 1; }
        for (int i = 0; i < WORKERS; ++i) vp_thread_join(l[i]);
        for (int i = 0; i < SENDERS; ++i) { vp_check(HANDLED[i] == COUNT, "every message is handled"); vp_log("handled", HANDLED[i]); }
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down"); vp_check(IO->idle(), "nothing is left in the loop");
        TO[0].reset(); TO[1].reset(); SUB.reset(); SUP.reset();
    }
    delete IO;
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
