// ev backend on a stand-in of libev's loop: the functions of <ev.h> which the backend uses, in any order libev permits
#define SWITCHES (VP_THOROUGH ? 3 : 2)
#include "backend.h"
#include "rotor/ev.hpp"
namespace re = rotor::ev; using namespace be;
namespace { unsigned POLL;
struct sup_t : re::supervisor_ev_t { static int N; sup_t(re::supervisor_config_ev_t &c) : re::supervisor_ev_t(c) { ++N; } ~sup_t() { --N; }
    void shutdown_finish() noexcept override { L->context(*this); re::supervisor_ev_t::shutdown_finish(); } };
int sup_t::N;
}
struct ev_loop { std::vector<ev_async *> async; std::vector<ev_timer *> timers, expired; bool destroyed = false, in_cb = false; };
namespace {
struct ev_loop LOOP;
void drop(std::vector<ev_timer *> &v, ev_timer *t) { for (auto it = v.begin(); it != v.end(); ++it) if (*it == t) { v.erase(it); return; } }
vp_u64 at(const ev_timer *t) { double us = t->at * 1e6; us = us + 0.5; return (vp_u64)us * 1000 + START; } // kept relative to START
}
extern "C" {
vp_u64 vp_now_ns(void) { return NOW; }
ev_tstamp ev_now(struct ev_loop *) noexcept { return (double)((NOW - START) / 1000) / 1e6; }
void ev_now_update(struct ev_loop *) noexcept { be::clock(POLL != 0); }
ev_tstamp ev_time(void) noexcept { return ev_now(&LOOP); }
void ev_async_start(struct ev_loop *l, ev_async *w) noexcept { if (w->active) return; w->active = 1; w->sent = 0; l->async.push_back(w); }
void ev_async_stop(struct ev_loop *l, ev_async *w) noexcept { w->pending = 0; if (!w->active) return; for (auto it = l->async.begin(); it != l->async.end(); ++it) if (*it == w) { l->async.erase(it); break; } w->active = 0; }
void ev_async_send(struct ev_loop *l, ev_async *w) noexcept { vp_check(!l->destroyed, "a destroyed loop is not used"); w->sent = 1; }
void ev_timer_start(struct ev_loop *l, ev_timer *w) noexcept { if (w->active) return; w->at += ev_now(l); w->active = 1; l->timers.push_back(w); }
void ev_timer_stop(struct ev_loop *l, ev_timer *w) noexcept { w->pending = 0; drop(l->expired, w); if (!w->active) return; drop(l->timers, w); w->active = 0; }
void ev_loop_destroy(struct ev_loop *l) { vp_check(!l->destroyed, "the loop is destroyed once"); vp_check(l->async.empty() && l->timers.empty() && l->expired.empty(), "no watcher is active when the loop is destroyed"); l->destroyed = true; }
}
namespace {
struct ctx_t : r::system_context_t { void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
struct loop_t : loop_base_t {
    r::intrusive_ptr_t<ctx_t> ctx; r::intrusive_ptr_t<sup_t> root, child;
    loop_t() {
        LOOP.destroyed = LOOP.in_cb = false; ctx = new ctx_t();
        auto b = ctx->create_supervisor<sup_t>(); (void)std::move(b).timeout(pt::milliseconds{10}); (void)std::move(b).loop(&LOOP); (void)std::move(b).loop_ownership(true); (void)std::move(b).inbound_queue_size(8); (void)std::move(b).poll_duration(pt::microseconds{(long)POLL});
        root = std::move(b).finish();
        child = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).loop(&LOOP).loop_ownership(false).inbound_queue_size(8).poll_duration(pt::microseconds{(long)POLL}).finish();
    }
    // alternatives: woken async watchers, expired timers, then the expiry of the earliest timer
    unsigned sent() { unsigned k = 0; for (auto *w : LOOP.async) k += w->sent != 0; return k; }
    unsigned work() override { return sent() + (unsigned)LOOP.expired.size(); }
    unsigned pending() override { return work() + (LOOP.timers.empty() || (DOWN && work()) ? 0 : 1); }
    void step(unsigned i) override {
        LOOP.in_cb = true;
        for (auto *w : LOOP.async) if (w->sent) { if (!i) { w->sent = 0; w->cb(&LOOP, w, EV_ASYNC); LOOP.in_cb = false; return; } --i; }
        if (i < LOOP.expired.size()) { auto *w = LOOP.expired[i]; LOOP.expired.erase(LOOP.expired.begin() + i); w->pending = 0; w->cb(&LOOP, w, EV_TIMER); LOOP.in_cb = false; return; }
        LOOP.in_cb = false;
        std::size_t m = 0; for (std::size_t k = 1; k < LOOP.timers.size(); ++k) if (LOOP.timers[k]->at < LOOP.timers[m]->at) m = k;
        auto *w = LOOP.timers[m]; auto t = at(w); if (t > NOW) NOW = t;
        vp_check(w->repeat == 0, "timers are one-shot"); LOOP.timers.erase(LOOP.timers.begin() + (long)m); w->active = 0; w->pending = 1; LOOP.expired.push_back(w);
    }
    void context(r::actor_base_t &) override { vp_check(LOOP.in_cb, "code of an actor runs in a callback of the loop"); }
};
}
int main() {
    auto live = vp_live(); NOW = START; DOWN = false; sup_t::N = act_t::ALIVE = 0; ALONE = vp_choice("alone", 2); POLL = vp_choice("poll", 2) * 5;
    {
        loop_t l; L = &l;
        A[0] = l.root->create_actor<act_t>().timeout(pt::milliseconds{10}).finish(); A[1] = l.child->create_actor<act_t>().timeout(pt::milliseconds{10}).finish();
        meet();
        l.root->start(); vp_check(l.work() > 0, "the start is scheduled");
        settle("the tree boots");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::OPERATIONAL && (int)vp::state_of(*A[1]) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        if (ALONE) l.child.reset();
        history([] {
            unsigned what = vp_choice("what", A[0]->down ? 2 : 4); auto &l = static_cast<loop_t &>(*L);
            if (sup_t::N < 2 && (what & 1)) return; // the child supervisor is released
            if (what < 2) outside_note(what); else if (what == 2) { down(0); l.root->shutdown(); } else { down(1); static_cast<sup_t &>(A[1]->get_supervisor()).shutdown(); }
        });
        at_rest();
        down(0); l.root->shutdown(); settle("the shutdown ends");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down");
        vp_check(LOOP.async.empty() && LOOP.timers.empty() && LOOP.expired.empty(), "no watcher is left in the loop");
        part();
        vp_check(!LOOP.destroyed, "the loop lives as long as its supervisor");
        l.child.reset(); l.root.reset(); l.ctx.reset();
        vp_check(!sup_t::N && !act_t::ALIVE, "supervisors and actors are released"); vp_check(LOOP.destroyed, "the owned loop is destroyed");
        { std::vector<ev_async *> a; a.swap(LOOP.async); } { std::vector<ev_timer *> t; t.swap(LOOP.timers); } { std::vector<ev_timer *> t; t.swap(LOOP.expired); }
    }
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
