// asio backend on a stand-in of boost.asio, whose pending operations are run in any order
#define EXTERNALS 2 // (the number of alternatives is larger than with the other backends)
#include "backend.h"
#include "rotor/asio.hpp"
namespace ra = rotor::asio; namespace as = boost::asio; using namespace be;
namespace { unsigned POLL, STRANDS; }
extern "C" vp_u64 vp_now_ns(void) { return be::clock(POLL != 0); }
namespace {
struct ctx_t : ra::system_context_asio_t {
    using ra::system_context_asio_t::system_context_asio_t;
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); }
};
struct sup_t : ra::supervisor_asio_t { using ra::supervisor_asio_t::supervisor_asio_t; static int N; sup_t(ra::supervisor_config_asio_t &c) : ra::supervisor_asio_t(c) { ++N; } ~sup_t() { --N; }
    void shutdown_finish() noexcept override { L->context(*this); ra::supervisor_asio_t::shutdown_finish(); } };
int sup_t::N;
struct loop_t : loop_base_t {
    as::io_context io;
    r::intrusive_ptr_t<ctx_t> ctx; r::intrusive_ptr_t<sup_t> root, child; std::shared_ptr<as::io_context::strand> s[2];
    loop_t() {
        ctx = new ctx_t(io); s[0] = std::make_shared<as::io_context::strand>(io); s[1] = STRANDS == 2 ? std::make_shared<as::io_context::strand>(io) : s[0];
        auto b = ctx->create_supervisor<sup_t>(); (void)std::move(b).timeout(pt::milliseconds{10}); (void)std::move(b).strand(s[0]); (void)std::move(b).guard_context(true); (void)std::move(b).inbound_queue_size(8); (void)std::move(b).poll_duration(pt::microseconds{(long)POLL});
        root = std::move(b).finish();
        child = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).strand(s[1]).inbound_queue_size(8).poll_duration(pt::microseconds{(long)POLL}).finish();
    }
    // alternatives: the front of each strand, then ready completions in any order, then the expiry of the earliest timer
    unsigned strands() { unsigned k = 0; for (auto *q : io.strands) k += !q->q.empty(); return k; }
    unsigned work() override { return strands() + (unsigned)io.ready.size(); }
    unsigned pending() override { return work() + (io.timers.empty() || (DOWN && work()) ? 0 : 1); }
    void step(unsigned i) override {
        for (auto *q : io.strands) if (!q->q.empty()) { if (!i) { io.run_strand(q); return; } --i; }
        if (i < io.ready.size()) { io.run_ready(i); return; }
        std::size_t m = 0; for (std::size_t k = 1; k < io.timers.size(); ++k) if (io.timers[k].at < io.timers[m].at) m = k;
        auto at = (vp_u64)io.timers[m].at.time_since_epoch().count(); if (at > NOW) NOW = at;
        io.complete(m, {});
    }
    void context(r::actor_base_t &a) override { auto &sup = static_cast<ra::supervisor_asio_t &>(a.get_supervisor()); vp_check(sup.get_strand().running_in_this_thread(), "code of an actor runs in the strand of its supervisor"); }
};
}
int main() {
    auto live = vp_live(); NOW = START; DOWN = false; sup_t::N = act_t::ALIVE = 0; ALONE = vp_choice("alone", 2); POLL = vp_choice("poll", 2) * 5; STRANDS = 1 + vp_choice("strands", 2);
    {
        loop_t l; L = &l;
        A[0] = l.root->create_actor<act_t>().timeout(pt::milliseconds{10}).finish(); A[1] = l.child->create_actor<act_t>().timeout(pt::milliseconds{10}).finish();
        meet();
        l.root->start(); vp_check(l.work() > 0, "the start is scheduled");
        settle("the tree boots"); 
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::OPERATIONAL && (int)vp::state_of(*A[1]) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        if (ALONE) l.child.reset();
        vp_check(l.io.guards == 1, "the context is kept running");
        history([] {
            unsigned what = vp_choice("what", A[0]->down ? 2 : 4); auto &l = static_cast<loop_t &>(*L);
            if (sup_t::N < 2 && (what & 1)) return; // the child supervisor is released
            if (what < 2) outside_note(what); else if (what == 2) { down(0); l.root->shutdown(); } else { down(1); static_cast<sup_t &>(A[1]->get_supervisor()).shutdown(); }
        });
        at_rest();
        down(0); l.root->shutdown(); settle("the shutdown ends");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down");
        vp_check(l.io.idle() && l.io.guards == 0, "nothing is left in the loop");
        part();
        l.child.reset(); l.root.reset(); l.ctx.reset();
        vp_check(!sup_t::N && !act_t::ALIVE, "supervisors and actors are released");
    }
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
