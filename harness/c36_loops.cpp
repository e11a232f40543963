// Two thread loops which exchange messages: every interleaving (bounded preemptions) of their synchronization operations.
// MODE 0 notes, 1 request with answer, 2 request answered with an error chain, 3 subscription to an address of the other loop, 4 routed message
#include "vp_rotor.h"
#include "rotor/thread.hpp"
namespace rth = rotor::thread;
#ifndef EARLY
#define EARLY 0
#endif
namespace { constexpr vp_u64 START = 1000000000000ul; volatile vp_u64 NOW = START; volatile int IDLE; }
extern "C" vp_u64 vp_now_ns(void) { vp_u64 n = NOW; NOW = n + 1000; return n; }
extern "C" void vp_timed_out(vp_u64 d) { IDLE = IDLE + 1; vp_check(IDLE < 12, "the loops make progress"); if (d > NOW) NOW = d; }
namespace {
volatile int FREED, MADE, SEEN[2], ROUTED, ANSWERED, FAILED, SUBSCRIBED;
struct load_t { vp_u64 v; load_t(vp_u64 v_) : v(v_) { MADE = MADE + 1; } load_t(const load_t &o) : v(o.v) { MADE = MADE + 1; } load_t(load_t &&o) : v(o.v) { MADE = MADE + 1; } ~load_t() { FREED = FREED + 1; } };
struct note_t { load_t load; note_t(vp_u64 v) : load(v) {} };
struct res_t : r::arc_base_t<res_t> { load_t load; explicit res_t(vp_u64 v) : load(v) {} };
struct req_t { using response_t = r::intrusive_ptr_t<res_t>; load_t load; explicit req_t(vp_u64 v) : load(v) {} };
struct go_t {}; struct bye_t {}; struct kick_t {};
vp_u64 V;
r::address_ptr_t TO[2], TOPIC, BACK;
struct act_t : r::actor_base_t {
    act_t(r::actor_config_t &c) : r::actor_base_t(c), me(ME) {}
    int me; static int ME;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &p) {
            p.subscribe_actor(&act_t::on_note); p.subscribe_actor(&act_t::on_req); p.subscribe_actor(&act_t::on_res); p.subscribe_actor(&act_t::on_go); p.subscribe_actor(&act_t::on_bye); p.subscribe_actor(&act_t::on_kick); if (MODE == 4 && me == 1) p.subscribe_actor(&act_t::on_back, BACK);
        });
    }
    void on_go(r::message_t<go_t> &) noexcept {
        auto &other = TO[1 - me];
        switch (MODE) {
        case 0: send<note_t>(other, V); break;
        case 1: case 2: request<req_t>(other, V).send(pt::seconds{10}); break;
        case 3: if (me == 0) { TOPIC = other; subscribe(&act_t::on_note, TOPIC); send<kick_t>(other); } break;
        case 4: if (me == 0) { TOPIC = other; subscribe(&act_t::on_note, TOPIC); send<kick_t>(other); } break;
        }
    }
    void on_kick(r::message_t<kick_t> &) noexcept { if (MODE == 4) route<note_t>(address, BACK, V); else send<note_t>(address, V); }
    void on_back(r::message_t<note_t> &m) noexcept { vp_check((EARLY || (SEEN[0] == 1 && SEEN[1] == 1)) && m.payload.load.v == V, "the routed message comes back after its recipients"); ROUTED = ROUTED + 1; finish(); finish(); }
    void on_note(r::message_t<note_t> &m) noexcept {
        vp_check(m.payload.load.v == V, "the payload is intact"); SEEN[me] = SEEN[me] + 1;
        if (MODE == 0) finish();
        if (MODE == 3) { if (me == 0) { if (SEEN[0] == 1) { unsubscribe(&act_t::on_note, TOPIC); finish(); } } else { if (SEEN[1] == 1) send<note_t>(address, V); else finish(); } }
    }
    void on_req(r::request_traits_t<req_t>::request::message_t &m) noexcept {
        vp_check(m.payload.request_payload.load.v == V, "the request is intact");
        if (MODE == 1) reply_to(m, V + 1);
        else reply_with_error(m, r::make_error("server", r::make_error_code(r::error_code_t::cancelled), r::make_error("cause", r::make_error_code(r::error_code_t::actor_misconfigured))));
    }
    void on_res(r::request_traits_t<req_t>::response::message_t &m) noexcept {
        auto &ee = m.payload.ee;
        vp_check(m.payload.req->payload.request_payload.load.v == V, "the response refers to the request");
        if (!ee) { vp_check(MODE == 1 && m.payload.res->load.v == V + 1, "the answer is intact"); ANSWERED = ANSWERED + 1; }
        else if (ee->ec == r::make_error_code(r::error_code_t::request_timeout)) { vp_check(EARLY, "a request is answered without waiting"); FAILED = FAILED + 1; }
        else { vp_check(MODE == 2 && ee->context == "server" && ee->next && ee->next->context == "cause", "the error chain is intact"); FAILED = FAILED + 1; }
        finish();
    }
    void finish() noexcept { if (!EARLY) { send<bye_t>(TO[1 - me]); send<bye_t>(address); } }
    int byes = 0;
    void on_bye(r::message_t<bye_t> &) noexcept { if (++byes == 2) supervisor->do_shutdown(); }
};
int act_t::ME;
struct ctx_t : rth::system_context_thread_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); }
};
struct loop_t { r::intrusive_ptr_t<ctx_t> ctx; r::intrusive_ptr_t<rth::supervisor_thread_t> sup; r::intrusive_ptr_t<act_t> act; };
void *loop(void *c) { static_cast<ctx_t *>(c)->run(); return nullptr; }
}
int main() {
    auto live = vp_live(); for (auto &t : TO) t.reset(); TOPIC.reset(); BACK.reset(); V = vp_sym("v", 64);
    {
        loop_t L[2];
        for (int i = 0; i < 2; ++i) {
            L[i].ctx = new ctx_t();
            auto b = L[i].ctx->create_supervisor<rth::supervisor_thread_t>();
            (void)std::move(b).timeout(pt::seconds{1}); (void)std::move(b).poll_duration(pt::microseconds{0}); (void)std::move(b).inbound_queue_size(8);
            L[i].sup = std::move(b).finish();
            if (i == 1 && MODE == 4) BACK = L[i].sup->create_address(); act_t::ME = i;
            L[i].act = L[i].sup->create_actor<act_t>().timeout(pt::seconds{1}).finish(); TO[i] = L[i].act->get_address();
            L[i].sup->do_process();
            vp_check((int)vp::state_of(*L[i].sup) == (int)r::state_t::OPERATIONAL, "the loop is booted");
        }
        for (int i = 0; i < 2; ++i) L[i].sup->enqueue(r::make_message<go_t>(TO[i]));
        for (auto &l : L) l.act.reset();
        vp_u64 id[2]; for (int i = 0; i < 2; ++i) id[i] = vp_thread_create(loop, L[i].ctx.get());
#if EARLY
        for (int i = 0; i < 2; ++i) L[i].sup->shutdown();
#endif
        for (int i = 0; i < 2; ++i) vp_thread_join(id[i]);
        for (auto &l : L) vp_check((int)vp::state_of(*l.sup) == (int)r::state_t::SHUT_DOWN, "the supervisors are shut down");
        if (!EARLY) {
            if (MODE == 0) vp_check(SEEN[0] == 1 && SEEN[1] == 1, "each note is handled once");
            if (MODE == 1) vp_check(ANSWERED == 2 && !FAILED, "each request is answered once");
            if (MODE == 2) vp_check(!ANSWERED && FAILED == 2, "each request is answered once");
            if (MODE == 3) vp_check((SEEN[0] == 1 || SEEN[0] == 2) && SEEN[1] == 2, "each note is handled once by each subscriber");
            if (MODE == 4) vp_check(SEEN[0] == 1 && SEEN[1] == 1 && ROUTED == 1, "the routed message comes back once");
            vp_check(!IDLE, "the loops do not sleep while there is work");
        }
        vp_log("seen", SEEN[0] * 10 + SEEN[1]); vp_log("answers", ANSWERED * 10 + FAILED);
        for (auto &t : TO) t.reset();
        TOPIC.reset(); BACK.reset();
    }
    vp_check(MADE == FREED, "every payload is destroyed exactly once");
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
