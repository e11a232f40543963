// fltk backend: the functions of Fl which it uses; the program runs the loop as the examples do: do_process() and Fl::wait() in turn
#define SWITCHES (VP_THOROUGH ? 3 : 2)
#include "backend.h"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>
namespace rf = rotor::fltk; using namespace be;
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
namespace {
struct sup_t : rf::supervisor_fltk_t { static int N; sup_t(rf::supervisor_config_fltk_t &c) : rf::supervisor_fltk_t(c) { ++N; } ~sup_t() { --N; }
    void shutdown_finish() noexcept override { L->context(*this); rf::supervisor_fltk_t::shutdown_finish(); } };
int sup_t::N;
struct ctx_t : rf::system_context_fltk_t { void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
struct ping_t {};
struct other_t : r::actor_base_t { // an actor of another context, which shares the loop
    using r::actor_base_t::actor_base_t; static int PINGS;
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&other_t::on_ping); }); }
    void on_ping(r::message_t<ping_t> &) noexcept { L->context(*this); ++PINGS; }
};
int other_t::PINGS;
struct awake_t { Fl_Awake_Handler cb; void *data; };
struct timeout_t { Fl_Timeout_Handler cb; void *data; vp_u64 at; };
struct loop_t : loop_base_t {
    std::deque<awake_t> awake; std::vector<timeout_t> timeouts; bool in_cb = false;
    r::intrusive_ptr_t<ctx_t> ctx; r::intrusive_ptr_t<sup_t> root, child;
    loop_t() {
        ctx = new ctx_t();
        auto b = ctx->create_supervisor<sup_t>(); (void)std::move(b).timeout(pt::milliseconds{10}); (void)std::move(b).inbound_queue_size(8);
        root = std::move(b).finish();
        child = root->create_actor<sup_t>().timeout(pt::milliseconds{10}).inbound_queue_size(8).finish();
    }
    r::intrusive_ptr_t<ctx_t> ctx0; r::intrusive_ptr_t<sup_t> root0; r::intrusive_ptr_t<other_t> other; int pings = 0;
    void create_other() {
        ctx0 = new ctx_t();
        auto b = ctx0->create_supervisor<sup_t>(); (void)std::move(b).timeout(pt::milliseconds{10}); (void)std::move(b).inbound_queue_size(8);
        root0 = std::move(b).finish(); other = root0->create_actor<other_t>().timeout(pt::milliseconds{10}).finish(); root0->start();
    }
    void ping() { ++pings; auto &ad = other->get_address(); ad->supervisor.enqueue(r::make_message<ping_t>(ad)); }
    void part_other() { root0->shutdown(); settle("the other context ends"); vp_check(other_t::PINGS == pings, "every message of the other context is handled"); }
    void release_other() { other.reset(); root0.reset(); ctx0.reset(); }
    // alternatives: the first of the awake callbacks, then the expiry of the earliest timeout
    unsigned work() override { return awake.empty() ? 0 : 1; }
    unsigned pending() override { return work() + (timeouts.empty() || (DOWN && work()) ? 0 : 1); }
    void step(unsigned i) override {
        in_cb = true;
        if (i < work()) { auto a = awake.front(); awake.pop_front(); if (a.cb) a.cb(a.data); }
        else {
            std::size_t m = 0; for (std::size_t k = 1; k < timeouts.size(); ++k) if (timeouts[k].at < timeouts[m].at) m = k;
            auto t = timeouts[m]; if (t.at > NOW) NOW = t.at; timeouts.erase(timeouts.begin() + (long)m); t.cb(t.data);
        }
        if (root) root->do_process(); // the program's loop
        if (root0) root0->do_process();
        in_cb = false;
    }
    void context(r::actor_base_t &) override { vp_check(in_cb, "code of an actor runs in the loop"); }
};
}
int Fl::awake(Fl_Awake_Handler cb, void *data) { static_cast<loop_t *>(L)->awake.push_back({cb, data}); return 0; }
void Fl::awake(void *) { static_cast<loop_t *>(L)->awake.push_back({nullptr, nullptr}); }
void Fl::add_timeout(double t, Fl_Timeout_Handler cb, void *data) { double us = t * 1e6; us = us + 0.5; static_cast<loop_t *>(L)->timeouts.push_back({cb, data, NOW + (vp_u64)us * 1000}); }
void Fl::repeat_timeout(double t, Fl_Timeout_Handler cb, void *data) { Fl::add_timeout(t, cb, data); }
int Fl::has_timeout(Fl_Timeout_Handler cb, void *data) { for (auto &t : static_cast<loop_t *>(L)->timeouts) if (t.cb == cb && t.data == data) return 1; return 0; }
void Fl::remove_timeout(Fl_Timeout_Handler cb, void *data) { auto &v = static_cast<loop_t *>(L)->timeouts; for (std::size_t i = 0; i < v.size();) if (v[i].cb == cb && (!data || v[i].data == data)) v.erase(v.begin() + (long)i); else ++i; }
int main() {
    auto live = vp_live(); NOW = START; DOWN = false; sup_t::N = act_t::ALIVE = 0;
    {
        auto *lp = (loop_t *)::operator new(sizeof(loop_t)); L = lp; new (lp) loop_t(); loop_t &l = *lp;
        A[0] = l.root->create_actor<act_t>().timeout(pt::milliseconds{10}).finish(); A[1] = l.child->create_actor<act_t>().timeout(pt::milliseconds{10}).finish();
        meet();
        unsigned before = vp_choice("another context", 3); other_t::PINGS = 0;
        if (before) l.create_other();
        if (before == 1) { settle("the other context boots"); l.part_other(); l.ping(); l.release_other(); } // a message comes too late, its wake up is still pending
        l.root->start(); vp_check(l.work() > 0, "the start is scheduled");
        settle("the tree boots");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::OPERATIONAL && (int)vp::state_of(*A[1]) == (int)r::state_t::OPERATIONAL, "the tree is booted");
        history([] {
            if (static_cast<loop_t &>(*L).root0 && vp_choice("ping", 2)) static_cast<loop_t &>(*L).ping();
            unsigned what = vp_choice("what", A[0]->down ? 2 : 4); auto &l = static_cast<loop_t &>(*L);
            if (what < 2) outside_note(what); else if (what == 2) { down(0); l.root->shutdown(); } else { down(1); l.child->shutdown(); }
        });
        at_rest(); if (before == 2) { l.part_other(); l.release_other(); }
        down(0); l.root->shutdown(); settle("the shutdown ends");
        vp_check((int)vp::state_of(*l.root) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down");
        vp_check(l.awake.empty() && l.timeouts.empty(), "nothing is left in the loop");
        part();
        l.child.reset(); l.root.reset(); l.ctx.reset();
        vp_check(!sup_t::N && !act_t::ALIVE, "supervisors and actors are released");
        lp->~loop_t(); ::operator delete(lp);
    }
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
