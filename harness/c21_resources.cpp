// C21: acquired resources hold back the end of initialization and of shutdown
#include <vp_rotor.h>
using namespace vp;
constexpr int IDS = 2;
static unsigned EARLY;
struct holder_t : actor_t {
    using actor_t::actor_t; int have[IDS] = {}; unsigned early = EARLY, in_start = 0, on_op = 0, in_down = 0; bool done = false; r::address_ptr_t server;
    int total() { int n = 0; for (int i = 0; i < IDS; ++i) n += have[i]; return n; }
    void same() { for (int i = 0; i < IDS; ++i) vp_check((int)resources->has((r::plugin::resource_id_t)i) == have[i], "the held count equals acquisitions minus releases"); vp_check(resources->has_any() == (total() > 0), "the plugin knows whether anything is held"); }
    void acquire(unsigned mask) { for (int i = 0; i < IDS; ++i) if (mask >> i & 1) { resources->acquire((r::plugin::resource_id_t)i); ++have[i]; same(); } if (mask >> 2 & 1) { resources->acquire(1); ++have[1]; same(); } }
    void release(int i) { --have[i]; bool left = total() > 0; vp_check(resources->release((r::plugin::resource_id_t)i) == left, "release tells whether something is still held"); same(); }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        // in either of the configuration phases
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (!done && (early & 8)) { done = true; vp_reach("preinit"); acquire(early & 7); } }, r::plugin::config_phase_t::PREINIT);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (!done && !(early & 8)) { done = true; acquire(early & 7); } });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &l) { if (server) l.link(server, false); }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_start() noexcept override { actor_t::init_start(); if (in_start) acquire(in_start); }
    void init_finish() noexcept override { if (early & 8) vp_check(done, "a resource can be acquired in the first configuration phase"); vp_check(total() == 0, "the initialization is not finished while a resource is held"); actor_t::init_finish(); }
    void on_start() noexcept override { actor_t::on_start(); acquire(on_op); }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); acquire(in_down); }
    void shutdown_finish() noexcept override { vp_check(total() == 0 || W->fatal, "the shutdown is not finished while a resource is held"); actor_t::shutdown_finish(); }
};
static holder_t *A; static bool LATE; static sup_t *ROOT;
static bool alive() { return state_of(*A) != r::state_t::SHUT_DOWN && A->res(); }
static bool DOWN_DONE;
static void op() { // releases or acquires something, or asks for shutdown
    unsigned c[IDS * 2 + 1], n = 0;
    for (int i = 0; i < IDS; ++i) if (A->have[i]) c[n++] = (unsigned)i;
    bool may = state_of(*A) == r::state_t::INITIALIZING || state_of(*A) == r::state_t::OPERATIONAL || (state_of(*A) == r::state_t::SHUTTING_DOWN && A->total());
    if (may && A->have[1] < 2) c[n++] = IDS + 1;
    if (!DOWN_DONE) c[n++] = 9;
    if (!n) return;
    auto k = c[vp_choice("op", n)];
    if (k == 9) { DOWN_DONE = true; A->do_shutdown(); } else if (k < IDS) A->release((int)k); else A->acquire(2);
}
static void step() { if (alive()) op(); }
int main() {
    run_t run;
    {
        ON_FATAL = [] { vp_check(A->total() > 0, "only a shutdown held back by a resource takes too long"); }; DOWN_DONE = false;
        unsigned where = vp_choice("where", 2); bool link = vp_choice("link", 2), spare = false;
        unsigned early = (unsigned)vp_choice("early", 4) * 2, phase = early && (VP_THOROUGH || !link) && vp_choice("phase", 2) ? 8 : 0; // none, one, two ids, or the same twice
        unsigned more = vp_choice("more", VP_THOROUGH ? 8 : 4); // in init_start, upon start, in shutdown_start
        {
            tree_t t(false, where); ROOT = t.root.get(); t.boot();
            auto s = t.root->create_actor<actor_t>().timeout(ms(9)).finish(); t.run();
            EARLY = (early == 2 ? 1 : early == 4 ? 3 : early == 6 ? 6 : 0) | phase; // the first configuration comes with the creation
            auto a = (where ? t.far : t.root)->create_actor<holder_t>().timeout(ms(8)).finish(); A = a.get();
            if (link) a->server = s->get_address();
            a->in_start = more & 4 ? 1 : 0; a->on_op = more & 1 ? 2 : 0; a->in_down = more & 2 ? 1 : 0;
            inject_t inj("at", 63, step); int ops = VP_THOROUGH ? 5 : 3; bool failed = false;
            for (int i = 0; i < 16; ++i) {
                t.run();
                auto st = state_of(*a);
                if (st == r::state_t::SHUT_DOWN) break;
                if (!a->total() && !failed) { // nothing holds the phases back
                    if (a->life.n_sstart) vp_fail("the shutdown is finished as soon as the last resource is released");
                    vp_check(st == r::state_t::OPERATIONAL, "the initialization is finished as soon as the last resource is released");
                }
                if (!inj.fired) { inj.late(); continue; }
                if (a->total() && timers() && !failed && st == r::state_t::INITIALIZING && vp_choice("timeout", 2)) { failed = true; size_t m = timer_of(t.root.get()); if (where) m = timer_of(t.far.get()); if (m < timers()) fire_raw(m); t.run(); vp_check(state_of(*a) == r::state_t::SHUTTING_DOWN, "an actor whose initialization is held back for too long is shut down"); vp_reach("timeout"); DOWN_DONE = true; }
                failed = false;
                if (ops-- > 0) { op(); continue; }
                for (int j = 0; j < IDS; ++j) while (a->have[j]) { auto fin = state_of(*a); (void)fin; a->release(j); }
                t.run();
                if (!DOWN_DONE) { DOWN_DONE = true; a->do_shutdown(); t.run(); for (int j = 0; j < IDS; ++j) while (a->have[j]) a->release(j); t.run(); }
            }
            BEFORE_MESSAGE = nullptr;
            vp_check(state_of(*a) == r::state_t::SHUT_DOWN, "the shutdown is finished as soon as the last resource is released");
            vp_log("hooks", (vp_u64)a->life.n_init_finish * 4 + (vp_u64)a->life.n_start * 2); if (a->life.n_start) vp_reach("operated");
            t.down();
            vp_reach("end");
        }
    }
    run.done();
}
