// wx backend on a stand-in of the event handler and of the timers
#include "backend.h"
#include "rotor/wx.hpp"
namespace rx = rotor::wx; using namespace be;
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
namespace vp_wx { timers_t *TIMERS; }
namespace {
struct sup_t : rx::supervisor_wx_t { static int N; sup_t(rx::supervisor_config_wx_t &c) : rx::supervisor_wx_t(c) { ++N; } ~sup_t() { --N; }
    void shutdown_finish() noexcept override { L->context(*this); rx::supervisor_wx_t::shutdown_finish(); } };
int sup_t::N;
struct ctx_t : rx::system_context_wx_t { using rx::system_context_wx_t::system_context_wx_t; void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
struct running_t { wxTimer *t; vp_u64 at; };
struct loop_t : loop_base_t, vp_wx::timers_t {
    std::vector<running_t> timers; wxEvtHandler handler; wxAppConsole app; bool in_cb = false;
    r::intrusive_ptr_t<ctx_t> ctx; r::intrusive_ptr_t<sup_t> root, child;
    loop_t() {
        vp_wx::TIMERS = this; ctx = new ctx_t(&app);
        auto b = ctx->create_supervisor<sup_t>(); (void)std::move(b).timeout(pt::milliseconds{10}); (void)std::move(b).handler(&handler); (void)std::move(b).inbound_queue_size(8);
        root = std::move(b).finish();
        child = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).handler(&handler).inbound_queue_size(8).finish();
    }
    void start(wxTimer *t, int ms, bool once) override { vp_check(once, "timers are one-shot"); stop(t); timers.push_back({t, NOW + (vp_u64)ms * MS}); }
    void stop(wxTimer *t) override { for (auto it = timers.begin(); it != timers.end(); ++it) if (it->t == t) { timers.erase(it); return; } }
    bool running(const wxTimer *t) override { for (auto &x : timers) if (x.t == t) return true; return false; }
    // alternatives: the first pending event, then the expiry of the earliest timer
    unsigned work() override { return handler.pending.empty() ? 0 : 1; }
    unsigned pending() override { return work() + (timers.empty() || (DOWN && work()) ? 0 : 1); }
    void step(unsigned i) override {
        in_cb = true;
        if (i < work()) { auto e = std::move(handler.pending.front()); handler.pending.pop_front(); e->run(); }
        else {
            std::size_t m = 0; for (std::size_t k = 1; k < timers.size(); ++k) if (timers[k].at < timers[m].at) m = k;
            auto x = timers[m]; if (x.at > NOW) NOW = x.at; timers.erase(timers.begin() + (long)m); x.t->Notify();
        }
        in_cb = false;
    }
    void context(r::actor_base_t &) override { vp_check(in_cb, "code of an actor runs in an event of the loop"); }
};
}
int main() {
    auto live = vp_live(); NOW = START; DOWN = false; sup_t::N = act_t::ALIVE = 0; ALONE = vp_choice("alone", 2);
    {
        loop_t l; L = &l;
        A[0] = l.root->create_actor<act_t>().timeout(pt::milliseconds{10}).finish(); A[1] = l.child->create_actor<act_t>().timeout(pt::milliseconds{10}).finish();
        meet();
        l.root->start(); vp_check(l.work() > 0, "the start is scheduled");
        settle("the tree boots");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::OPERATIONAL && (int)vp::state_of(*A[1]) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        if (ALONE) l.child.reset();
        history([] {
            unsigned what = vp_choice("what", A[0]->down ? 2 : 4); auto &l = static_cast<loop_t &>(*L);
            if (sup_t::N < 2 && (what & 1)) return; // the child supervisor is released
            if (what < 2) outside_note(what); else if (what == 2) { down(0); l.root->shutdown(); } else { down(1); static_cast<sup_t &>(A[1]->get_supervisor()).shutdown(); }
        });
        at_rest();
        down(0); l.root->shutdown(); settle("the shutdown ends");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down");
        vp_check(l.handler.pending.empty() && l.timers.empty(), "nothing is left in the loop");
        part();
        l.child.reset(); l.root.reset(); l.ctx.reset();
        vp_check(!sup_t::N && !act_t::ALIVE, "supervisors and actors are released");
    }
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
