// C10: a supervisor finishes its shutdown only after all its children did; nobody is forgotten
#include <vp_rotor.h>
using namespace vp;
struct node_t { r::actor_base_t *self; r::actor_base_t *parent; bool done; };
static std::vector<node_t> *NODES; static bool EXCUSED; // a shutdown took too long: reported as a fatal error
static void born(r::actor_base_t *self, r::actor_base_t *parent) { NODES->push_back({self, parent, false}); }
static void finished(r::actor_base_t *a) {
    for (auto &n : *NODES) if (n.parent == a) vp_check(n.done || W->fatal, "a supervisor finishes its shutdown only after its children");
    for (auto &n : *NODES) if (n.self == a) n.done = true;
}
static sup_t *TARGET; static int LATE; static bool LATE_DONE; static int DOWN; static sup_t *ROOT, *SUB; static unsigned TICK; static vp_u64 AT, AT2; static r::actor_base_t *LEAF;
struct kid_t : actor_t {
    using actor_t::actor_t; int how = 0; bool holding = false; // 0 fine, 1 slow initialization, 2 slow shutdown
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (how == 1 && !holding) { holding = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (how == 2) { holding = true; resources->acquire(); } }
    void shutdown_finish() noexcept override { actor_t::shutdown_finish(); finished(this); }
    void let_go() { holding = false; resources->release(); }
};
using kid_ptr = r::intrusive_ptr_t<kid_t>;
static std::vector<kid_ptr> *KIDS; static std::vector<sup_ptr> *SUPS;
static kid_ptr kid(sup_t *s, int how) { auto k = s->create_actor<kid_t>().timeout(ms(9)).finish(); k->how = how; born(k.get(), s); KIDS->push_back(k); return k; }
struct msup_t : sup_t { // creates a child of its own in the middle of its initialization
    using sup_t::sup_t; bool nested = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        sup_t::configure(p);
        p.with_casted<r::plugin::child_manager_plugin_t>([&](auto &) { if (nm == "nest") kid(this, 0); });
    }
    void shutdown_finish() noexcept override { sup_t::shutdown_finish(); finished(this); }
};
static void late_child() {
    LATE_DONE = true;
    if (state_of(*TARGET) >= r::state_t::SHUTTING_DOWN && LATE != 2) return;
    if (state_of(*TARGET) == r::state_t::SHUT_DOWN) return;
    if (LATE == 1 || LATE == 2) { kid(TARGET, 0); vp_reach("late child"); }
    else { auto s = TARGET->create_actor<msup_t>().timeout(ms(9)).locality(TARGET->loc).name("nest").finish(); born(s.get(), TARGET); SUPS->push_back(s); vp_reach("late sub-tree"); }
}
static void down() {
    switch (DOWN) { case 0: ROOT->do_shutdown(); break; case 1: SUB->do_shutdown(); break; case 2: LEAF->do_shutdown(); break; }
}
static bool DOWN_DONE;
static void step(r::message_base_t &) {
    if (!DOWN_DONE && AT == TICK) { DOWN_DONE = true; down(); TICK = 0; return; }
    if (DOWN_DONE && !LATE_DONE && AT2 == TICK) late_child();
    ++TICK;
}
int main() {
    run_t run;
    {
        std::vector<node_t> nodes; NODES = &nodes; std::vector<kid_ptr> kids; KIDS = &kids; std::vector<sup_ptr> sups; SUPS = &sups;
        TICK = 0; DOWN_DONE = false;
        unsigned where = vp_choice("where", 2); // the sub-tree shares the loop or has its own
        DOWN = (int)vp_choice("down", 3);
        LATE = (int)vp_choice("late", 4);
        int how = (int)vp_choice("how", LATE && !VP_THOROUGH ? 1 : 3); LATE_DONE = LATE == 0;
        AT = vp_range("at", 0, 255); AT2 = LATE ? vp_range("at2", 0, VP_THOROUGH ? 255 : 12) : 0;
        {
            auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t()); static const char other = 0;
            auto root = ctx->create_supervisor<msup_t>().timeout(ms(40)).name("root").finish(); born(root.get(), nullptr);
            auto sub = where ? root->create_actor<msup_t>().timeout(ms(20)).locality(&other).name("sub").finish() : root->create_actor<msup_t>().timeout(ms(20)).name("sub").finish(); born(sub.get(), root.get());
            ROOT = root.get(); SUB = sub.get();
            auto leaf = kid(sub.get(), how); LEAF = leaf.get(); kid(root.get(), 0);
            TARGET = DOWN == 1 || (DOWN == 0 && vp_choice("target", 2)) ? SUB : ROOT;
            BEFORE_MESSAGE = step;
            for (int i = 0; i < 14; ++i) {
                if (!where) drain(ROOT); else if (LATE && !VP_THOROUGH) drain({ROOT, SUB}); else pump({ROOT, SUB});
                if (W->fatal) break;
                if (!DOWN_DONE) { if (leaf->holding && DOWN != 2 && vp_choice("first", 2)) { leaf->let_go(); continue; } vp_assume(AT >= TICK); AT = ~0ul; DOWN_DONE = true; TICK = 0; down(); continue; }
                if (leaf->holding) { if (vp_choice("release", 2) == 0 || !timers()) leaf->let_go(); else { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; fire_raw(m); } continue; }
                if (!LATE_DONE) { vp_assume(AT2 >= TICK); late_child(); continue; }
                if (state_of(*root) < r::state_t::SHUTTING_DOWN) {
                    if (DOWN == 1 && state_of(*sub) != r::state_t::SHUT_DOWN) vp_fail("a sub-tree which was asked to shut down does so");
                    ROOT->do_shutdown(); continue;
                }
                break;
            }
            BEFORE_MESSAGE = nullptr;
            if (W->fatal) { vp_check(how != 0, "only a shutdown which takes too long is fatal"); vp_reach("fatal"); vp_end(); }
            vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down");
            for (auto &n : nodes) vp_check(n.done && state_of(*n.self) == r::state_t::SHUT_DOWN, "no child is forgotten");
            vp_log("nodes", nodes.size());
            vp_reach("end");
        }
        NODES = nullptr; KIDS = nullptr; SUPS = nullptr;
    }
    run.done();
}
