// C07, C08: life cycle of actors and supervisors with shutdowns requested at arbitrary moments and from every hook
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 7
#endif
static vp_u64 HOOKS;                                                    // which hooks ask for shutdown, decided where they run
static bool hook(int i) { return (HOOKS >> i) & 1; }
// The reasons which can be the first one to reach the actor: a later one counts only when it is given closer to the actor
struct given_t { int distance; r::extended_error_ptr_t reason; };
static given_t GIVEN[4]; static int NGIVEN;
static void give(int distance, r::extended_error_ptr_t e) {
    for (int i = 0; i < NGIVEN; ++i) if (GIVEN[i].distance <= distance) return;
    GIVEN[NGIVEN++] = given_t{distance, e};
}
static int FAULT;                                                       // 0 none, 1 slow init, 2 endless init, 3 slow shutdown, 4 endless shutdown
struct subj_t : actor_t {
    using actor_t::actor_t; r::extended_error_ptr_t recorded; int n_conf = 0; bool holding = false; unsigned conf_seen = 0;
    void ask(int n) {
        if (state >= r::state_t::SHUTTING_DOWN) return; // a no-op
        bool plain = n == 0;
        auto reason = plain ? r::extended_error_ptr_t() : make_error(r::make_error_code(r::error_code_t::discovery_failed), {}, {});
        give(0, reason); do_shutdown(reason);
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { if (address && hook(0)) ask(1); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if ((FAULT == 1 || FAULT == 2) && !holding) { holding = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_start() noexcept override { actor_t::init_start(); if (hook(1)) ask(1); }
    void init_finish() noexcept override { actor_t::init_finish(); if (hook(2)) ask(1); }
    void on_start() noexcept override { actor_t::on_start(); if (hook(3)) ask(0); }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); vp_check((bool)shutdown_reason, "a shutdown has a reason"); recorded = shutdown_reason; if (hook(4)) { do_shutdown(); } if (FAULT >= 3) { holding = true; resources->acquire(); } }
    void shutdown_finish() noexcept override { actor_t::shutdown_finish(); if (hook(5)) do_shutdown(); }
    void let_go() { holding = false; resources->release(); }
};
struct watched_t { r::actor_base_t *a; r::state_t last; };
static std::vector<watched_t> *WATCH;
static void watch() { for (auto &w : *WATCH) { auto s = state_of(*w.a); vp_check((int)s >= (int)w.last, "the state only advances"); w.last = s; } }
static subj_t *A; static sup_t *ROOT, *PARENT; static int STIM[2]; static vp_u64 AT[2]; static unsigned TICK; static int DONE_STIM;
static void fire_stim(int i) {
    ++DONE_STIM;
    switch (STIM[i]) {
    case 0: if (state_of(*A) < r::state_t::SHUTTING_DOWN) A->ask(0); break;
    case 1: if (state_of(*A) < r::state_t::SHUTTING_DOWN) A->ask(1); break;
    case 2: { auto e = r::make_error("root", r::make_error_code(r::error_code_t::already_linked)); if (state_of(*ROOT) < r::state_t::SHUTTING_DOWN) give(2, e); ROOT->do_shutdown(e); break; }
    case 3: { if (state_of(*PARENT) < r::state_t::SHUTTING_DOWN) give(PARENT == ROOT ? 2 : 1, {}); PARENT->do_shutdown(); break; }
    }
}
static void step(r::message_base_t &) { watch(); for (int i = 0; i < 2; ++i) if (STIM[i] >= 0 && i == DONE_STIM && AT[i] == TICK) { TICK = (unsigned)-1; fire_stim(i); break; } ++TICK; }
int main() {
    run_t run;
    {
        std::vector<watched_t> wv; WATCH = &wv; NGIVEN = 0; TICK = 0; DONE_STIM = 0;
        unsigned where = vp_choice("where", VP_THOROUGH ? 3 : 2);
        FAULT = MODE == 7 ? (int)vp_choice("fault", 5) : 2 * (int)vp_choice("fault", 2) + 1; if (MODE == 8 && FAULT == 1) FAULT = 0;
        HOOKS = MODE == 7 ? vp_range("hooks", 0, 63) : 0;
        STIM[0] = (int)vp_choice("stim", 4); STIM[1] = MODE == 8 ? (int)vp_choice("stim2", 4) : -1;
        AT[0] = vp_range("at", 0, 255); AT[1] = MODE == 8 ? vp_range("at2", 0, VP_THOROUGH ? 255 : 15) : 0;
        {
            tree_t t(where == 1, where == 2);
            ROOT = t.root.get(); PARENT = where == 0 ? ROOT : where == 1 ? t.near.get() : t.far.get();
            auto a = PARENT->create_actor<subj_t>().timeout(ms(9)).finish(); A = a.get();
            wv.push_back({ROOT, r::state_t::NEW}); if (PARENT != ROOT) wv.push_back({PARENT, r::state_t::NEW}); wv.push_back({A, r::state_t::NEW});
            BEFORE_MESSAGE = step;
            for (int round = 0; round < 12; ++round) {
                t.run();
                bool all = state_of(*ROOT) == r::state_t::SHUT_DOWN;
                if (all || W->fatal) break;
                if (a->holding && (FAULT == 1 || FAULT == 3) && vp_choice("release", 2) == 0) { a->let_go(); continue; } // may also happen later than the next timer
                if (DONE_STIM < 1 || (STIM[1] >= 0 && DONE_STIM < 2)) { // nothing happens any more unless somebody asks
                    int i = DONE_STIM; vp_assume(AT[i] >= TICK); AT[i] = ~0ul; TICK = 0; fire_stim(i); continue;
                }
                if (timers()) { fire_raw(MODE == 7 || VP_THOROUGH ? vp_choice("timer", (unsigned)timers()) : 0); continue; }
                if (a->holding) { a->let_go(); continue; }
                if (!t.root->leader_queue().empty()) continue;
                if (state_of(*ROOT) < r::state_t::SHUTTING_DOWN) { ROOT->do_shutdown(); continue; }
                vp_fail("a shutdown never finishes");
            }
            BEFORE_MESSAGE = nullptr;
            watch();
            if (W->fatal) { // the shutdown timed out because of an obligation which was never settled: it has to be reported
                vp_check(FAULT >= 1, "a fatal error is reported only for a shutdown which takes too long"); vp_reach("fatal"); vp_end();
            }
            vp_check(state_of(*ROOT) == r::state_t::SHUT_DOWN && state_of(*PARENT) == r::state_t::SHUT_DOWN && state_of(*A) == r::state_t::SHUT_DOWN, "a requested shutdown finishes");
            vp_check(A->life.n_sstart == 1 && A->life.n_sfinish == 1, "shutdown of an actor starts and finishes");
            vp_check(ROOT->life.n_sstart == 1 && ROOT->life.n_sfinish == 1, "shutdown of a supervisor starts and finishes");
            vp_check(A->life.n_start <= A->life.n_init_finish && A->life.n_init_finish <= A->life.n_init_start, "no operation without initialization");
            auto &reason = A->get_shutdown_reason();
            vp_check((bool)reason && reason == A->recorded, "the reason stays as it was recorded first");
            vp_check((bool)ROOT->get_shutdown_reason(), "the supervisor has a reason");
            if (NGIVEN && (FAULT == 0 || FAULT >= 3)) {
                auto rt = reason->root(); bool known = false;
                for (int i = 0; i < NGIVEN; ++i) {
                    if (GIVEN[i].reason) known = known || rt.get() == GIVEN[i].reason.get();
                    else known = known || rt->ec == r::make_error_code(r::shutdown_code_t::normal);
                }
                vp_check(known, "the first reason given is the one which is recorded");
            }
            vp_log("life", (vp_u64)(A->life.n_init_finish * 2 + A->life.n_start));
            if (A->life.n_start) vp_reach("operated"); else vp_reach("not operated");
            vp_reach("end");
        }
        for (auto &g : GIVEN) g.reason.reset();
        WATCH = nullptr;
    }
    run.done();
}
