// C11, C12: everything at once: services, links, requests, timers, subscriptions, resources, spawned actors on one loop or two, disturbed at arbitrary moments
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 12
#endif
static int PAYLOADS; // payloads which have not been destroyed
struct counted_t { counted_t() { ++PAYLOADS; } counted_t(const counted_t &) { ++PAYLOADS; } ~counted_t() { --PAYLOADS; } };
struct note_t { int v; counted_t c{}; note_t(int v_) : v{v_} {} }; using note_m = r::message_t<note_t>;
struct res_t { int v; counted_t c{}; res_t(int v_ = 0) : v{v_} {} };
struct req_t { using response_t = res_t; int v; counted_t c{}; req_t(int v_) : v{v_} {} };
using req_m = r::request_traits_t<req_t>::request::message_t; using res_m = r::request_traits_t<req_t>::response::message_t;
static bool TIMERS_OF_USER;
struct srv_t : actor_t {
    using actor_t::actor_t; std::vector<r::intrusive_ptr_t<req_m>> kept; r::address_ptr_t extra; int n = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&srv_t::on_req); s.subscribe_actor(&srv_t::on_note); });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &x) { x.register_name("s", get_address()); });
    }
    void on_start() noexcept override { actor_t::on_start(); extra = create_address(); subscribe(&srv_t::on_note, extra); }
    void on_req(req_m &m) noexcept { ++n; if (m.payload.request_payload.v) reply_to(m, 1); else kept.emplace_back(&m); }
    void on_note(note_m &) noexcept { ++n; for (auto &x : kept) reply_to(*x, 2); kept.clear(); }
};
struct cli_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t server; r::intrusive_ptr_t<note_m> mine; int n = 0, timers_ = 0; bool held = false; std::vector<r::request_id_t> tm;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&cli_t::on_res); s.subscribe_actor(&cli_t::on_note); }, r::plugin::config_phase_t::PREINIT);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &x) { x.discover_name("s", server, true).link(false); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &x) { x.acquire(); held = true; send<note_t>(address, 0); }, r::plugin::config_phase_t::PREINIT);
    }
    void on_start() noexcept override { actor_t::on_start(); work(); subscribe(&cli_t::on_note, server); }
    void work() {
        if (state != r::state_t::OPERATIONAL) return;
        tm.push_back(start_timer(ms(13), *this, &cli_t::on_timer)); ++timers_;
        request<req_t>(server, 0).send(ms(11)); request<req_t>(server, 1).send(ms(12));
        route<note_t>(server, address, 3);
        if (tm.size() > 1 && timers_ > 1) cancel_timer(tm.back());
    }
    void on_timer(r::request_id_t, bool) noexcept { --timers_; vp_check(state != r::state_t::SHUT_DOWN, "no callback after the shutdown"); }
    void on_res(res_m &m) noexcept { ++n; if (!m.payload.ee) n += m.payload.res.v; }
    void on_note(note_m &m) noexcept { ++n; if (!mine) mine.reset(&m); if (held) { held = false; resources->release(); } }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (held) { held = false; resources->release(); } }
};
struct spawned_t : actor_t { using actor_t::actor_t; void on_start() noexcept override { actor_t::on_start(); start_timer(ms(21), *this, &spawned_t::on_timer); } void on_timer(r::request_id_t, bool) noexcept {} };
static r::intrusive_ptr_t<spawned_t> LAST; static int CALLS;
static r::actor_ptr_t factory(r::supervisor_t &s, const r::address_ptr_t &sp) { ++CALLS; LAST = s.create_actor<spawned_t>().timeout(ms(17)).spawner_address(sp).finish(); return LAST; }
enum { SRV, CLI, P, ROOT, SPAWNED, WORK, NEWCLI, TIMER, NOPS };
static r::actor_base_t *X[4]; static cli_t *CL; static sup_t *SUP; static r::intrusive_ptr_t<cli_t> CLI2; static int DUE;
static bool up(r::actor_base_t *a) { return a && (int)state_of(*a) < (int)r::state_t::SHUTTING_DOWN; }
static const int OPS = 2; static int OP[3]; static vp_u64 AT[3]; static unsigned TICK; static int NEXT;
static void act(int op) {
    switch (op) {
    case SPAWNED: if (LAST && up(LAST.get())) LAST->do_shutdown(r::make_error("bad", r::make_error_code(r::error_code_t::cancelled))); break;
    case WORK: CL->work(); if (state_of(*CL) == r::state_t::OPERATIONAL) CL->unsubscribe(&cli_t::on_note); break;
    case NEWCLI: if (up(SUP) && !CLI2) CLI2 = SUP->create_actor<cli_t>().timeout(ms(19)).autoshutdown_supervisor().finish(); break;
    case TIMER: DUE = 1; break;
    default: if (X[op]) X[op]->do_shutdown();
    }
}
static void step(r::message_base_t &) {
    while (NEXT < OPS && AT[NEXT] == TICK) { if (OP[NEXT] < 0) OP[NEXT] = (int)vp_choice("op", NEXT + 1 == OPS ? NOPS - 1 : NOPS); int op = OP[NEXT++]; TICK = 0; act(op); if (NEXT < OPS) AT[NEXT] = vp_range("later", 0, VP_THOROUGH ? MODE == 12 ? 9 : 5 : MODE == 12 ? 2 : 0); }
    ++TICK;
}
int main() {
    run_t run;
    {
        PAYLOADS = 0; CALLS = 0; DUE = 0; TICK = 0; NEXT = 0; for (auto &o : OP) o = -1;
        bool far_away = vp_choice("far", 2), late = !VP_THOROUGH && MODE == 12 ? !far_away : vp_choice("boot", 2); static const char other = 0; ON_FATAL = [] {};
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto root = ctx->create_supervisor<sup_t>().timeout(ms(50)).policy(r::supervisor_policy_t::shutdown_failed).create_registry().name("root").finish();
        auto pb = root->create_actor<sup_t>().timeout(ms(40)).policy(r::supervisor_policy_t::shutdown_failed);
        sup_ptr p = far_away ? std::move(pb).locality(&other).finish() : std::move(pb).finish();
        SUP = p.get();
        auto round = [&] { bool any = false; for (auto *s : {root.get(), p.get()}) if (s->is_leader() && !s->leader_queue().empty()) { any = true; s->do_process(); } return any; };
        auto run_all = [&] {
            for (int i = 0; i < 200; ++i) {
                bool any = round();
                if (!any && DUE) { DUE = 0; size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; if (m < timers()) { fire_raw(m); any = true; } }
                if (!any) return;
            }
            vp_fail("the queues never become empty");
        };
        if (!late) run_all();
        AT[0] = vp_range("at", 0, 255); BEFORE_MESSAGE = step;
        auto cli = p->create_actor<cli_t>().timeout(ms(30)).finish(); CL = cli.get();
        auto srv = root->create_actor<srv_t>().timeout(ms(30)).finish();
        X[SRV] = srv.get(); X[CLI] = cli.get(); X[P] = p.get(); X[ROOT] = root.get();
        { auto b = p->spawn(factory); std::move(b).restart_policy(r::restart_policy_t::fail_only).restart_period(ms(5)).max_attempts(3).spawn(); }
        run_all();
        if (up(root.get())) { root->send<note_t>(srv->get_address(), 4); run_all(); }
        if (NEXT < OPS) { for (; NEXT < OPS; ++NEXT) { vp_assume(AT[NEXT] >= TICK); if (NEXT + 1 < OPS) AT[NEXT + 1] = TICK; } vp_reach("undisturbed"); }
        BEFORE_MESSAGE = nullptr;
        if (up(root.get())) { root->do_shutdown(); run_all(); }
        // the last resort: what still waits is given time
        for (int i = 0; i < 40 && timers() && state_of(*root) != r::state_t::SHUT_DOWN; ++i) { DUE = 1; run_all(); vp_reach("waited"); }
        vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down"); vp_check(timers() == 0, "no timer is left");
        for (r::actor_base_t *a : {(r::actor_base_t *)srv.get(), (r::actor_base_t *)cli.get(), (r::actor_base_t *)p.get(), (r::actor_base_t *)LAST.get(), (r::actor_base_t *)CLI2.get()})
            if (a) { vp_check(state_of(*a) == r::state_t::SHUT_DOWN, "everything shuts down"); vp_check(a->use_count() == 1, "only the user refers to an actor which has shut down"); vp_check(quiet(*a), "no timer and no request is left"); }
        vp_check(root->use_count() == 2, "only the user and the context refer to the root which has shut down");
        vp_check(cli->timers_ == 0, "each timer has been called back");
        if (cli->mine) vp_check(cli->mine->use_count() == 1, "only its holder refers to a message");
        for (auto &k : srv->kept) vp_check(k->use_count() == 1, "only its holder refers to a message");
        if (CLI2) { vp_reach("another client"); if (CLI2->mine) vp_check(CLI2->mine.get() == cli->mine.get() || CLI2->mine->use_count() == 1, "only its holder refers to a message"); }
        if (CALLS > 1) vp_reach("restarted"); if (cli->n > 3) vp_reach("busy");
        srv->kept.clear(); cli->mine.reset(); if (CLI2) CLI2->mine.reset();
        vp_check(PAYLOADS == 0, "each message is released once");
        CLI2.reset(); LAST.reset(); ON_FATAL = nullptr;
        vp_reach("end");
    }
    run.done();
}
