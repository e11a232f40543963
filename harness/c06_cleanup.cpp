// C06: what an actor leaves behind when it shuts down, at an arbitrary moment of a busy history
#include <vp_rotor.h>
using namespace vp;
struct req_t { using response_t = int; int n; };
using traits = r::request_traits_t<req_t>; using req_msg = traits::request::message_t; using res_msg = traits::response::message_t;
struct note_t { int n; }; using note_msg = r::message_t<note_t>;
struct go_t {}; using go_msg = r::message_t<go_t>;
struct server_t : actor_t {
    using actor_t::actor_t; std::vector<r::intrusive_ptr_t<req_msg>> kept; bool answer_at_once = false; r::address_ptr_t back;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&server_t::on_req); s.subscribe_actor(&server_t::on_note); }); }
    void on_req(req_msg &m) noexcept { if (answer_at_once) reply_to(m, 1); else kept.emplace_back(&m); }
    void on_note(note_msg &) noexcept {}
};
struct user_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t peer, own2; int pending_timers = 0, cancelled = 0, triggered = 0, notes = 0, responses = 0, errors = 0; bool use_own = false, use_peer = false; int n_timers = 0, n_reqs = 0; bool by_self = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &s) {
            s.subscribe_actor(&user_t::on_res); s.subscribe_actor(&user_t::on_go); s.subscribe_actor(&user_t::on_note);
        });
    }
    void on_start() noexcept override { actor_t::on_start(); send<go_t>(address); send<note_t>(address, note_t{1}); }
    void alive() { vp_check(state != r::state_t::SHUT_DOWN && state != r::state_t::NEW, "nothing of an actor runs after it has shut down"); }
    void on_res(res_msg &m) noexcept { alive(); ++responses; if (m.payload.ee) ++errors; }
    void on_note(note_msg &) noexcept { alive(); ++notes; }
    void on_timer(r::request_id_t, bool c) noexcept { alive(); --pending_timers; if (c) ++cancelled; else ++triggered; }
    void on_go(go_msg &) noexcept {
        alive();
        if (state != r::state_t::OPERATIONAL) return;
        for (int i = 0; i < n_timers; ++i) { start_timer(ms(50 + i), *this, &user_t::on_timer); ++pending_timers; }
        for (int i = 0; i < n_reqs; ++i) request<req_t>(peer, i).send(ms(30));
        if (use_own) { own2 = create_address(); subscribe(&user_t::on_note, own2); }
        if (use_peer) subscribe(&user_t::on_note, peer);
        if (by_self) do_shutdown();
    }
    void shutdown_finish() noexcept override {
        actor_t::shutdown_finish();
        vp_check(pending_timers == 0, "all timers are called back when the shutdown finishes");
        vp_check(quiet(*this), "no timer and no request of the actor is left when the shutdown finishes");
    }
};
static user_t *A; static server_t *B; static sup_t *ROOT; static int STIMULUS;
static void stimulus() { if (STIMULUS == 0) A->do_shutdown(); else if (STIMULUS == 1) ROOT->do_shutdown(); else { A->do_shutdown(); A->do_shutdown(); } }
int main() {
    run_t run;
    {
        unsigned where = vp_choice("where", 3);
        tree_t t(where == 1, where == 2);
        t.boot();
        auto *ss = where == 0 ? t.root.get() : where == 1 ? t.near.get() : t.far.get();
        auto b = ss->create_actor<server_t>().timeout(ms(9)).finish(); t.run();
        unsigned kind = vp_choice("kind", 4);
        b->answer_at_once = kind == 1;
        r::intrusive_ptr_t<user_t> a;
        {
            inject_t inj("shutdown_at", 80, stimulus);
            a = t.root->create_actor<user_t>().timeout(ms(9)).finish();
            a->peer = b->get_address(); b->back = a->get_address(); A = a.get(); B = b.get(); ROOT = t.root.get();
            a->n_timers = (int)vp_choice("timers", 3); a->n_reqs = kind == 3 ? 0 : 2; a->use_own = kind >= 2; a->use_peer = true; 
            STIMULUS = (int)vp_choice("stimulus", 3);
            t.root->send<note_t>(a->get_address(), note_t{1});
            t.run();
            if (!inj.fired) { t.root->send<note_t>(b->get_address(), note_t{2}); t.root->send<note_t>(a->get_address(), note_t{3}); }
            if (!inj.fired && state_of(*a) == r::state_t::OPERATIONAL) {
                unsigned ev = vp_choice("event", 4);
                if (ev == 1) for (auto &x : b->kept) b->reply_to(*x, 5); // answered while the shutdown is on the way
                if (ev == 2) { size_t i = timer_of(a.get()); if (i != (size_t)-1) fire_raw(i); }
                if (ev == 3) { size_t i = timer_of(t.root.get()); if (i != (size_t)-1) fire_raw(i); }
            }
            t.run();
            inj.late();
            t.run();
            vp_check(state_of(*a) == r::state_t::SHUT_DOWN, "the actor shuts down");
            for (auto &tm : *TIMERS) vp_check(tm.handler->owner != a.get(), "no timer of the actor is left in the event loop");
        }
        // whatever arrives now is not seen by the actor any more (checked in the handlers)
        int n = A->notes, rs = A->responses, tr = A->triggered + A->cancelled;
        if (state_of(*b) == r::state_t::OPERATIONAL) for (auto &x : b->kept) { b->reply_to(*x, 7); b->reply_to(*x, 8); }
        b->kept.clear();
        t.root->send<note_t>(A->get_address(), note_t{4}); t.root->send<go_t>(A->get_address());
        if (A->own2) t.root->send<note_t>(A->own2, note_t{5});
        if (state_of(*t.root) == r::state_t::OPERATIONAL) { t.root->send<note_t>(b->get_address(), note_t{6}); t.run(); }
        t.run();
        while (state_of(*t.root) == r::state_t::OPERATIONAL && timers()) { fire_raw(0); t.run(); }
        vp_check(A->notes == n && A->responses == rs && A->triggered + A->cancelled == tr, "nothing reaches an actor which has shut down");
        vp_check(a->use_count() == 1, "nobody refers to an actor which has shut down");
        if (A->triggered + A->cancelled) vp_reach("timers"); if (rs) vp_reach("responses");
        vp_reach("end");
        t.down();
    }
    run.done();
}
