// C09 (C23): a spawned child is replaced while its supervisor initializes: the new instance counts as any other child
#include <vp_rotor.h>
using namespace vp;
struct child_t;
static std::vector<child_t *> *KIDS; static sup_t *P; static bool SYNC; static unsigned SECOND; static bool FAIL;
struct psup_t : sup_t { using sup_t::sup_t; void init_finish() noexcept override; };
struct child_t : actor_t {
    using actor_t::actor_t; bool slow = false, fail = FAIL, holding = false; int starts = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow && !holding) { holding = true; resources->acquire(); } });
    }
    void init_start() noexcept override { actor_t::init_start(); if (fail) do_shutdown(r::make_error("kid", r::make_error_code(r::error_code_t::discovery_failed))); }
    void on_start() noexcept override {
        actor_t::on_start(); vp_check(++starts == 1, "a child is started once");
        if (SYNC && !P->life.n_sstart) vp_check(P->life.n_init_finish == 1, "synchronized start: a child starts only when its supervisor starts");
    }
    void let_go() { holding = false; resources->release(); }
};
void psup_t::init_finish() noexcept {
    if (this == P) for (auto *k : *KIDS) vp_check(k->life.n_init_finish || state_of(*k) >= r::state_t::SHUTTING_DOWN, "a supervisor becomes operational only after every child was initialized");
    sup_t::init_finish();
}
using kid_ptr = r::intrusive_ptr_t<child_t>;
int main() {
    run_t run;
    {
        std::vector<child_t *> kids; KIDS = &kids; std::vector<kid_ptr> hold;
        bool self = vp_choice("policy", 2); SYNC = vp_choice("sync", 2);
        bool below = vp_choice("below", 2), err = vp_choice("error", 2), first_back = vp_choice("order", 2);
        SECOND = (unsigned)vp_choice("second", 3);                        // the second instance: fine, slow, fails
        auto rp = vp_choice("restart", 2) ? r::restart_policy_t::always : err ? r::restart_policy_t::fail_only : r::restart_policy_t::normal_only;
        auto pol = self ? r::supervisor_policy_t::shutdown_self : r::supervisor_policy_t::shutdown_failed;
        {
            auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
            auto root = ctx->create_supervisor<psup_t>().timeout(ms(40)).policy(below ? r::supervisor_policy_t::shutdown_failed : pol).synchronize_start(!below && SYNC).name("root").finish();
            sup_ptr p = root;
            if (below) p = root->create_actor<psup_t>().timeout(ms(30)).policy(pol).synchronize_start(SYNC).name("p").finish();
            P = p.get();
            auto a = p->create_actor<child_t>().timeout(ms(20)).finish(); a->slow = true; kids.push_back(a.get()); // keeps the supervisor initializing
            int made = 0;
            p->spawn([&](r::supervisor_t &s, const r::address_ptr_t &spawner) -> r::actor_ptr_t {
                FAIL = ++made == 2 && SECOND == 2;
                auto k = static_cast<sup_t &>(s).create_actor<child_t>().timeout(ms(10)).spawner_address(spawner).finish();
                FAIL = false; k->slow = made == 2 && SECOND == 1;
                kids.push_back(k.get()); hold.push_back(k); return k;
            }).restart_policy(rp).restart_period(pt::seconds{0}).max_attempts(2).spawn();
            auto work = [&] { drain(root.get()); };
            work();
            vp_check(made == 1 && state_of(*p) == r::state_t::INITIALIZING && hold[0]->life.n_init_finish, "the supervisor waits for its slow child");
            vp_check(hold[0]->starts == !SYNC, "without synchronization a child is started at once");
            hold[0]->do_shutdown(err ? r::make_error("kid", r::make_error_code(r::error_code_t::discovery_failed)) : r::extended_error_ptr_t{});
            work();
            if (!SYNC) {
                vp_check(made == 2, "the spawned child is replaced");
                auto &b = hold[1];
                auto free_a = [&] { if (a->holding && state_of(*a) == r::state_t::INITIALIZING) a->let_go(); work(); };
                auto free_b = [&] { if (b->holding) b->let_go(); work(); };
                if (SECOND != 2) {
                    vp_check(state_of(*p) == r::state_t::INITIALIZING, "the supervisor waits");
                    if (first_back) free_a(); else free_b();
                    bool waits = SECOND == 1 || !first_back;
                    vp_check(state_of(*p) == (waits ? r::state_t::INITIALIZING : r::state_t::OPERATIONAL), "the supervisor waits for every child");
                    if (first_back) free_b(); else free_a();
                    vp_check(state_of(*p) == r::state_t::OPERATIONAL && state_of(*b) == r::state_t::OPERATIONAL && state_of(*a) == r::state_t::OPERATIONAL, "everybody starts");
                    vp_reach("replaced");
                } else {
                    free_b(); free_a();
                    if (a->holding) { a->let_go(); work(); }
                    vp_check(!b->life.n_init_finish && state_of(*b) == r::state_t::SHUT_DOWN, "the new instance fails");
                    vp_check(p->life.n_start == 0 && state_of(*p) == r::state_t::SHUT_DOWN, "the failure of the new instance is treated as the one of any child");
                    vp_reach("failed");
                }
            } else {
                // the child was not started yet
                if (a->holding) { a->let_go(); work(); }
                if (made == 2 && hold[1]->holding) { hold[1]->let_go(); work(); }
                vp_check(p->life.n_start == 0 && state_of(*p) == r::state_t::SHUT_DOWN, "a child which is gone before the start is a failure");
                vp_reach("gone before start");
            }
            vp_check(W->fatal == 0, "no fatal error is reported");
            root->do_shutdown(); work();
            vp_check(state_of(*root) == r::state_t::SHUT_DOWN && W->fatal == 0, "the tree shuts down");
            hold.clear();
            vp_reach("end");
        }
        KIDS = nullptr; P = nullptr;
    }
    run.done();
}
