// History shared by the harnesses of the event loop backends. A backend supplies `loop_t`:
//   root, child          supervisors, created by create()
//   unsigned pending()   number of alternatives the loop has now, timers last;  unsigned work() those which are no timer expiries
//   void step(unsigned)  runs one of them
//   void context(r::actor_base_t&)   checks that code of the actor may run now
//   void finished()      checks that nothing is left after the shutdown
#pragma once
#include "vp_rotor.h"
namespace be {
constexpr vp_u64 START = 1000000000000ul, MS = 1000000ul;
vp_u64 NOW = START;
extern struct loop_base_t *L;
struct loop_base_t { virtual void context(r::actor_base_t &) = 0; virtual unsigned pending() = 0; virtual unsigned work() = 0; virtual void step(unsigned) = 0; virtual ~loop_base_t() = default; };
loop_base_t *L;
bool ALONE; // the actors do not talk to each other, and nobody holds the child supervisor
bool DOWN; // a shutdown has been requested: the limits of time for it are longer than the delays of the loop
enum op_t { NOTHING, TIMER, LATE_TIMER, CANCEL, PEER, SELF, REQUEST, SILENT, NOPS };
struct note_t { int no; int op; };
struct peer_t { int no; };
struct res_t { int v; };
struct req_t { using response_t = res_t; int no; bool silent; };
struct timer_rec_t { r::request_id_t id; vp_u64 deadline; int called; bool cancelled; };
struct act_t : r::actor_base_t {
    explicit act_t(r::actor_config_t &c) : r::actor_base_t(c) { ++ALIVE; }
    ~act_t() { --ALIVE; }
    static int ALIVE;
    act_t *peer = nullptr; r::address_ptr_t peer_addr;
    std::vector<timer_rec_t> timers; bool gone = false, down = false;
    int sent = 0, handled = 0;          // notes from outside
    int psent = 0, phandled = 0;        // from the peer
    int ssent = 0, shandled = 0;        // to itself
    int requests = 0, answers = 0, rearm = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&act_t::on_note); p.subscribe_actor(&act_t::on_peer); p.subscribe_actor(&act_t::on_req); p.subscribe_actor(&act_t::on_res); });
    }
    void shutdown_finish() noexcept override { L->context(*this); r::actor_base_t::shutdown_finish(); gone = true; for (auto &t : timers) vp_check(t.called == 1, "no timer outlives its actor"); }
    void on_note(r::message_t<note_t> &m) noexcept {
        L->context(*this); vp_check(m.payload.no == handled, "each message is handled once and in order"); ++handled; perform((op_t)m.payload.op);
    }
    void on_peer(r::message_t<peer_t> &m) noexcept {
        L->context(*this);
        if (m.payload.no >= 0) { vp_check(m.payload.no == phandled, "each message of the peer is handled once and in order"); ++phandled; }
        else { vp_check(-1 - m.payload.no == shandled, "each message to itself is handled once and in order"); ++shandled; }
    }
    void on_req(r::request_traits_t<req_t>::request::message_t &m) noexcept { L->context(*this); if (!m.payload.request_payload.silent) reply_to(m, m.payload.request_payload.no + 1); }
    void on_res(r::request_traits_t<req_t>::response::message_t &m) noexcept {
        L->context(*this); vp_check(++answers <= requests, "each request is answered once");
        bool silent = m.payload.req->payload.request_payload.silent;
        if (!m.payload.ee) vp_check(!silent && m.payload.res.v == m.payload.req->payload.request_payload.no + 1, "the answer is the one of the request");
        else vp_check(down || m.payload.ee->ec == r::make_error_code(r::error_code_t::request_timeout), "an unanswered request times out");
    }
    void perform(op_t op) noexcept {
        switch (op) {
        case TIMER: start(1); break;
        case LATE_TIMER: start(3); break;
        case CANCEL: for (auto &t : timers) if (!t.called) { t.cancelled = true; auto id = t.id; cancel_timer(id); for (auto &u : timers) if (u.id == id) vp_check(u.called == 1, "a cancelled timer is called back"); break; } break;
        case PEER: if (peer) { peer->psent++; send<peer_t>(peer_addr, peer_t{peer->psent - 1}); } break;
        case SELF: ssent++; send<peer_t>(address, peer_t{-ssent}); break;
        case REQUEST: case SILENT: ++requests; request<req_t>(peer_addr, req_t{requests, op == SILENT}).send(pt::milliseconds{2}); break;
        default: break;
        }
    }
    void start(unsigned ms) noexcept { auto at = NOW + ms * MS; auto id = start_timer(pt::milliseconds{ms}, *this, &act_t::on_timer); timers.push_back({id, at, 0, false}); }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        L->context(*this); bool found = false;
        for (auto &t : timers) if (t.id == id && !t.called) {
            found = true; t.called = 1;
            if (cancelled) vp_check(t.cancelled || down, "only a cancelled timer is called back as cancelled");
            else { vp_check(!t.cancelled, "a cancelled timer never triggers"); vp_check(NOW >= t.deadline, "a timer does not trigger early"); }
            break;
        }
        vp_check(found, "a timer is called back once"); vp_check(!gone, "no timer outlives its actor");
        if (!cancelled) { if (rearm) { --rearm; start(1); } else { ssent++; send<peer_t>(address, peer_t{-ssent}); } }
    }
};
int act_t::ALIVE;
inline r::intrusive_ptr_t<act_t> A[2];
inline void quiet() { // nothing but timers is pending
    for (auto &a : A) if (!a->down) { vp_check(a->handled == a->sent, "every message is handled without waiting for a timer"); vp_check(a->phandled == a->psent && a->shandled == a->ssent, "every message of an actor is handled without waiting for a timer"); }
}
#ifndef EXTERNALS
#define EXTERNALS (VP_THOROUGH ? 3 : 2)
#endif
#ifndef SWITCHES
#define SWITCHES (VP_THOROUGH ? 4 : 2)
#endif
void (*OUTSIDE)(); int LEFT, DEV; // what happens outside: how often yet; deviations from the first alternative left
// the clock; while the loop polls, something may happen outside between two readings of the clock
inline vp_u64 clock(bool polls) {
    if (!polls) return NOW;
    vp_u64 n = NOW; NOW = n + 1000;
    if (LEFT > 0 && DEV > 0 && vp_choice("meanwhile", 2)) { --LEFT; --DEV; OUTSIDE(); }
    return n;
}
// the loop runs, messages arrive from outside at any moment; the alternatives of the loop are taken in any order (bounded
// number of deviations from the first one)
inline void history(void (*outside)()) {
    LEFT = EXTERNALS; DEV = SWITCHES; OUTSIDE = outside; unsigned steps = 0;
    for (;;) {
        vp_check(++steps < 400, "the loop comes to rest");
        unsigned n = L->pending(), w = L->work();
        if (!w) quiet();
        // before which step does the next thing from outside happen
        if (LEFT > 0 && (!n || (DEV > 0 && vp_choice("outside", 2)))) { if (n) --DEV; --LEFT; OUTSIDE(); continue; }
        if (!n) break;
        unsigned k = n > 1 && DEV > 0 ? vp_choice("next", n) : 0; if (k) --DEV;
        L->step(k);
    }
}
// something from outside: a message to one of the actors, or a shutdown
inline void outside_note(unsigned to) {
    auto &a = *A[to]; int op = ALONE ? (int)vp_choice("op", 4) : (int)vp_choice("op", NOPS); if (ALONE && op == 3) op = SELF; if (op == TIMER) a.rearm = (int)vp_choice("rearm", 2);
    auto &ad = a.get_address(); a.sent++; ad->supervisor.enqueue(r::make_message<note_t>(ad, note_t{a.sent - 1, op}));
}
inline void meet() { A[0]->peer = A[1].get(); A[1]->peer = A[0].get(); A[0]->peer_addr = A[1]->get_address(); A[1]->peer_addr = A[0]->get_address(); }
inline void at_rest() { for (auto &a : A) if (!a->down) { vp_check(a->requests == a->answers, "every request is answered"); for (auto &t : a->timers) vp_check(t.called == 1, "every timer is called back"); } }
inline void down(unsigned from) { DOWN = true; for (unsigned i = from; i < 2; ++i) A[i]->down = true; }
inline void part() {
    for (auto &a : A) { for (auto &t : a->timers) vp_check(t.called == 1, "every timer is called back"); vp_log("handled", a->handled * 100 + a->phandled * 10 + a->shandled); vp_log("timers", a->timers.size()); }
    for (auto &a : A) a->peer_addr.reset();
    for (auto &a : A) a.reset();
}
inline void settle(const char *what) { unsigned steps = 0; while (L->pending()) { vp_check(++steps < 400, what); L->step(0); } }
} // namespace be
