// C09, C23 (C07): a supervisor waits for its children; failures follow the policy; synchronized start
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 9
#endif
#define CHK(c, m) do { if (MODE != 7) vp_check(c, m); } while (0) // C07 asks only for the life cycles
// how a child behaves during initialization: 0 fine, 1 needs a resource which is given back later or never, 2 asks for shutdown in init_start, 3 asks for shutdown
// when it is configured, 4 fails after it was initialized (in init_finish)
struct child_t;
static std::vector<child_t *> *KIDS; static sup_t *P; static bool SYNC, MAKE_LATE; static int NEXT_HOW; static r::extended_error_ptr_t *WHY;
static void make_late();
struct psup_t : sup_t {
    using sup_t::sup_t;
    void init_finish() noexcept override;
};
struct child_t : actor_t {
    using actor_t::actor_t; int how = NEXT_HOW; bool holding = false, failed = false, spawner = false; int starts = 0; bool gone = false;
    void ask() { failed = true; do_shutdown(*WHY); }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { if (state == r::state_t::INITIALIZING && how == 3 && !failed) ask(); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (how == 1 && !holding) { holding = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_start() noexcept override { actor_t::init_start(); if (how == 2) ask(); }
    void init_finish() noexcept override { actor_t::init_finish(); if (how == 4) ask(); if (spawner) make_late(); }
    void on_start() noexcept override {
        actor_t::on_start(); ++starts; vp_check(starts == 1, "a child is started once");
        if (SYNC && P->life.n_sstart == 0) {
            CHK(P->life.n_init_finish == 1, "synchronized start: a child starts only when its supervisor starts");
            if (P->life.n_start == 0 && MODE == 23) for (auto *k : *KIDS) CHK(k->life.n_init_finish || k->failed || k->gone || (int)state_of(*k) >= (int)r::state_t::SHUTTING_DOWN, "synchronized start: a child starts only after its siblings are initialized");
        }
    }
    void shutdown_finish() noexcept override { actor_t::shutdown_finish(); gone = true; }
    void let_go() { holding = false; resources->release(); }
};
void psup_t::init_finish() noexcept {
    if (this == P) for (auto *k : *KIDS) CHK(k->life.n_init_finish || (int)state_of(*k) >= (int)r::state_t::SHUTTING_DOWN || k->failed, "a supervisor becomes operational only after every child was initialized");
    sup_t::init_finish();
}
using kid_ptr = r::intrusive_ptr_t<child_t>;
static std::vector<kid_ptr> *HOLD;
static kid_ptr make(int how, int timeout) {
    NEXT_HOW = how; // the actor asks already when it is created
    auto k = P->create_actor<child_t>().timeout(ms(timeout)).finish();
    KIDS->push_back(k.get()); HOLD->push_back(k); return k;
}
static void make_late() { if (MAKE_LATE && state_of(*P) < r::state_t::SHUTTING_DOWN) { MAKE_LATE = false; make((int)vp_choice("late how", MODE == 9 ? 3 : 2), 7); } }
int main() {
    run_t run;
    {
        std::vector<child_t *> kids; KIDS = &kids; std::vector<kid_ptr> hold; HOLD = &hold; r::extended_error_ptr_t why; WHY = &why;
        auto pol = vp_choice("policy", 2) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        SYNC = MODE != 9 ? vp_choice("sync", 2) : vp_choice("sync", VP_THOROUGH ? 2 : 1);
        if (vp_choice("why", VP_THOROUGH ? 2 : 1) == 0) why = r::make_error("kid", r::make_error_code(r::error_code_t::discovery_failed));
        unsigned late = vp_choice("late", 4); // 0 no late child, 1 from a child which gets initialized, 2 at any message, 3 after all is settled
        unsigned where = vp_choice("where", VP_THOROUGH ? 3 : 2);
        {
            auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t()); static const char other = 0;
            auto root = ctx->create_supervisor<psup_t>().timeout(ms(40)).policy(where ? r::supervisor_policy_t::shutdown_failed : pol).synchronize_start(where == 0 && SYNC).name("root").finish();
            sup_ptr p = root;
            P = root.get();
            if (where == 1) p = root->create_actor<psup_t>().timeout(ms(30)).policy(pol).synchronize_start(SYNC).name("p").finish();
            if (where == 2) p = root->create_actor<psup_t>().timeout(ms(30)).policy(pol).synchronize_start(SYNC).locality(&other).name("p").finish();
            P = p.get();
            auto a = make((int)vp_choice("how", 5), 9); auto b = make((int)vp_choice("how2", late == 2 ? 1 : MODE == 9 || VP_THOROUGH ? 5 : 2), 8);
            a->spawner = late == 1; MAKE_LATE = late != 0;
            inject_t inj("at", 255, make_late); if (late != 2) inj.fired = true;
            auto run_all = [&] { where == 2 ? drain({root.get(), p.get()}) : drain(root.get()); };
            bool late_done = late != 3;
            for (int i = 0; i < 16; ++i) {
                run_all();
                if (W->fatal) break;
                bool held = false;
                for (auto &k : hold) if (k->holding) held = true;
                if (held) {
                    unsigned n = 0; child_t *c[3]; for (auto &k : hold) if (k->holding) c[n++] = k.get();
                    unsigned what = (int)state_of(*P) >= (int)r::state_t::SHUTTING_DOWN || (int)state_of(*root) >= (int)r::state_t::SHUTTING_DOWN ? 1 : vp_choice("next", 1 + n); // time passes, or somebody gets its resource
                    if (what) { c[what - 1]->let_go(); continue; }
                    if (timers()) { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; fire_raw(m); continue; }
                    for (auto &k : hold) if (k->holding) { k->let_go(); break; }
                    continue;
                }
                if (!inj.fired) { inj.late(); continue; }
                if (!late_done) { late_done = true; if (state_of(*P) < r::state_t::SHUTTING_DOWN) { make_late(); continue; } }
                // time passes, nobody waits for anything any more
                if (timers()) { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; fire_raw(m); continue; }
                break;
            }
            BEFORE_MESSAGE = nullptr;
            if (W->fatal) { bool held = false; for (auto &k : hold) held |= k->holding; vp_check(held, "a phase which nobody holds back does not take too long"); vp_reach("fatal"); vp_end(); } // a resource was held for too long during shutdown
            // everything has settled
            auto st = state_of(*p);
            vp_check(st == r::state_t::OPERATIONAL || st == r::state_t::SHUT_DOWN, "a supervisor either starts or shuts down");
            bool failure = false, early = false;
            for (auto &k : hold) {
                auto s = state_of(*k);
                if (k->life.n_sstart) failure = true;
                vp_check(s == r::state_t::OPERATIONAL || s == r::state_t::SHUT_DOWN, "a child either starts or shuts down");
                if (s == r::state_t::OPERATIONAL) { vp_check(st == r::state_t::OPERATIONAL, "no child outlives its supervisor"); vp_check(k->starts == 1, "each child is started"); }
            }
            if (!failure) CHK(st == r::state_t::OPERATIONAL, "a supervisor whose children are all fine starts");
            if (st == r::state_t::OPERATIONAL) {
                vp_reach("operational");
                if (pol == r::supervisor_policy_t::shutdown_self) for (int i = 0; i < 2; ++i) CHK(hold[i]->life.n_init_finish, "shut-down-self: a supervisor does not start when a child failed to initialize");
            } else {
                vp_reach("down");
                auto &r0 = p->get_shutdown_reason(); CHK((bool)r0, "the supervisor has a reason");
                CHK(p->life.n_start == 0, "an operational supervisor is not affected by a child which fails to initialize");
            }
            for (auto &k : hold) if (k->life.n_sstart && k->life.n_init_finish == 0) early = true;
            if (early) vp_reach("failed init");
            vp_log("outcome", (vp_u64)st * 100 + (vp_u64)state_of(*a) * 10 + (vp_u64)state_of(*b));
            root->do_shutdown(); run_all(); vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down");
            for (auto &k : hold) vp_check(state_of(*k) == r::state_t::SHUT_DOWN && k->use_count() <= 3, "children are shut down with the tree");
            vp_check(W->fatal == 0, "no fatal error is reported");
            vp_reach("end");
        }
        KIDS = nullptr; HOLD = nullptr; P = nullptr;
    }
    run.done();
}
