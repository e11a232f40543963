// fltk backend with messages from other threads: the loop sleeps until Fl::awake() is called; every interleaving of the senders'
// and the loop's synchronization operations (bounded number of preemptions).
#include "vp_rotor.h"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>
#include <condition_variable>
#include <mutex>
namespace rf = rotor::fltk;
#ifndef SENDERS
#define SENDERS 2
#endif
#ifndef COUNT
#define COUNT 1
#endif
namespace { constexpr vp_u64 START = 1000000000000ul; volatile vp_u64 NOW = START; }
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
extern "C" void vp_timed_out(vp_u64) { vp_fail("the loop does not wait for a while"); }
namespace {
struct note_t { int sender, no; };
volatile int HANDLED[SENDERS];
struct receiver_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&receiver_t::on_note); }); }
    void on_note(r::message_t<note_t> &m) noexcept {
        int s = m.payload.sender; vp_check(HANDLED[s] == m.payload.no, "each message of a sender is handled once and in order"); HANDLED[s] = HANDLED[s] + 1;
    }
};
struct ctx_t : rf::system_context_fltk_t { void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
struct awake_t { Fl_Awake_Handler cb; void *data; };
struct fl_t { std::mutex m; std::condition_variable c; awake_t q[16]; int head = 0, tail = 0; };
fl_t *FL;
struct timeout_t { Fl_Timeout_Handler cb; void *data; };
std::vector<timeout_t> *TIMEOUTS; // used by the loop only
r::intrusive_ptr_t<rf::supervisor_fltk_t> SUP, SUB; r::address_ptr_t TO[2];
void *loop(void *) { // ends with the supervisor; the program's loop: Fl::wait() and do_process() in turn
    while ((int)vp::state_of(*SUP) != (int)r::state_t::SHUT_DOWN) {
        awake_t a;
        { std::unique_lock<std::mutex> l(FL->m); while (FL->head == FL->tail) FL->c.wait(l); a = FL->q[FL->head]; FL->head = FL->head + 1; }
        if (a.cb) a.cb(a.data);
        SUP->do_process();
    }
    return nullptr;
}
void *sender(void *a) {
    int me = (int)(long)a;
    for (int k = 0; k < COUNT; ++k) { auto &to = TO[me & 1]; to->supervisor.enqueue(r::make_message<note_t>(to, note_t{me, k})); }
    return nullptr;
}
}
int Fl::awake(Fl_Awake_Handler cb, void *data) {
    std::unique_lock<std::mutex> l(FL->m); FL->q[FL->tail] = {cb, data}; FL->tail = FL->tail + 1; vp_check(FL->tail <= 16, "the loop is woken a few times only"); FL->c.notify_one(); return 0;
}
void Fl::awake(void *) { Fl::awake((Fl_Awake_Handler) nullptr, nullptr); }
void Fl::add_timeout(double, Fl_Timeout_Handler cb, void *data) { TIMEOUTS->push_back({cb, data}); }
void Fl::repeat_timeout(double t, Fl_Timeout_Handler cb, void *data) { Fl::add_timeout(t, cb, data); }
int Fl::has_timeout(Fl_Timeout_Handler cb, void *data) { for (auto &t : *TIMEOUTS) if (t.cb == cb && t.data == data) return 1; return 0; }
void Fl::remove_timeout(Fl_Timeout_Handler cb, void *data) { auto &v = *TIMEOUTS; for (std::size_t i = 0; i < v.size();) if (v[i].cb == cb && (!data || v[i].data == data)) v.erase(v.begin() + (long)i); else ++i; }
int main() {
    auto live = vp_live(); SUB.reset(); TO[0].reset(); TO[1].reset(); FL = new fl_t; TIMEOUTS = new std::vector<timeout_t>;
    {
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto b = ctx->create_supervisor<rf::supervisor_fltk_t>(); (void)std::move(b).timeout(pt::seconds{1}); (void)std::move(b).inbound_queue_size(4);
        SUP = std::move(b).finish();
        auto rc = SUP->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[0] = rc->get_address();
        SUB = SUP->create_actor<rf::supervisor_fltk_t>().timeout(pt::seconds{1}).inbound_queue_size(4).finish();
        auto rc2 = SUB->create_actor<receiver_t>().timeout(pt::seconds{1}).finish(); TO[1] = rc2->get_address();
        SUP->do_process();
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        rc.reset(); rc2.reset();
        auto l = vp_thread_create(loop, nullptr); vp_u64 s[SENDERS];
        for (int i = 0; i < SENDERS; ++i) s[i] = vp_thread_create(sender, (void *)(long)i);
        for (int i = 0; i < SENDERS; ++i) vp_thread_join(s[i]);
        SUP->shutdown();
        vp_thread_join(l);
        for (int i = 0; i < SENDERS; ++i) { vp_check(HANDLED[i] == COUNT, "every message is handled"); vp_log("handled", HANDLED[i]); }
        vp_check((int)vp::state_of(*SUP) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down"); vp_check(FL->head == FL->tail && TIMEOUTS->empty(), "nothing is left in the loop");
        TO[0].reset(); TO[1].reset(); SUB.reset(); SUP.reset();
    }
    delete FL; delete TIMEOUTS;
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
