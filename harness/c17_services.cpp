// C17: services are registered, discovered and revoked along with the life cycle of their actors
#include <vp_rotor.h>
using namespace vp;
namespace to2 { struct registered_map {}; struct reverse_map {}; struct promises {}; }
namespace rotor {
template <> inline auto &registry_t::access<to2::registered_map>() noexcept { return registered_map; }
template <> inline auto &registry_t::access<to2::reverse_map>() noexcept { return reverse_map; }
template <> inline auto &registry_t::access<to2::promises>() noexcept { return promises; }
}
static r::registry_t *REG; static sup_t *ROOT; static bool TIMED_OUT, DOWN_DONE; static unsigned DOWN;
static const r::address_t *who(const char *name) { auto &m = REG->access<to2::registered_map>(); auto it = m.find(name); return it == m.end() ? nullptr : it->second.get(); }
struct service_t : actor_t { // declares names and lookups
    using actor_t::actor_t;
    const char *names[2] = {}; const char *lookup[2] = {}; r::address_ptr_t found[2]; bool delayed = false, link = false, op_only = false, slow = false, holding = false; int calls[2] = {};
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            for (auto *n : names) if (n) p.register_name(n, address);
            for (int i = 0; i < 2; ++i) if (lookup[i]) {
                auto &t = p.discover_name(lookup[i], found[i], delayed);
                if (link) t.link(op_only);
                t.callback([this, i](auto phase, const r::extended_error_ptr_t &ec) { ++calls[i]; vp_check(life.n_init_finish == 0, "lookups are resolved during the initialization"); if (!ec) vp_check((bool)found[i], "a resolved lookup gives the address"); vp_log("phase", (vp_u64)phase * 2 + !ec); });
            }
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow && !holding) { holding = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_finish() noexcept override {
        for (auto *n : names) if (n) vp_check(who(n) == address.get(), "an actor is initialized only after its names are registered");
        for (int i = 0; i < 2; ++i) if (lookup[i]) vp_check((bool)found[i], "an actor is initialized only after its lookups are resolved");
        actor_t::init_finish();
    }
    void let_go() { holding = false; resources->release(); }
};
using service_ptr = r::intrusive_ptr_t<service_t>;
static service_t *S, *C, *T;
static void down() { DOWN_DONE = true; switch (DOWN) { case 0: S->do_shutdown(); break; case 1: C->do_shutdown(); break; case 2: ROOT->do_shutdown(); break; case 3: REG->do_shutdown(); break; } }
int main() {
    run_t run;
    {
        ON_FATAL = [] { vp_check(TIMED_OUT, "only what takes too long is fatal"); };
        TIMED_OUT = DOWN_DONE = false; S = C = T = nullptr;
        unsigned where = vp_choice("where", 3);   // all on one loop, the server or the client has its own
        unsigned taken = vp_choice("taken", 3);   // free names, or the first or the second name of the server is already taken
        unsigned look = vp_choice("look", 3);     // the client looks for the name of the server, for two names of it, for nobody's name
        unsigned how = look == 0 || VP_THOROUGH ? vp_choice("how", 2) * 2 : 0; // just lookup (which links), with an operational-only link
        bool delayed = vp_choice("delayed", 2), first = delayed || VP_THOROUGH ? vp_choice("first", 2) : 0;
        DOWN = vp_choice("down", 4);
        {
            tree_t t(true, where != 0); ROOT = t.root.get();
            auto reg = t.root->create_actor<r::registry_t>().timeout(ms(20)).finish(); REG = reg.get();
            t.root->access<to::registry_address>() = reg->get_address(); t.near->access<to::registry_address>() = reg->get_address(); if (t.far) t.far->access<to::registry_address>() = reg->get_address();
            t.boot();
            auto mk = [&](sup_t *s, int tm) { return s->create_actor<service_t>().timeout(ms(tm)).finish(); };
            service_ptr s, c, o;
            if (taken) { o = mk(t.root.get(), 9); o->names[0] = taken == 1 ? "alpha" : "beta"; t.run(); T = o.get(); }
            auto server = [&] { s = mk(where == 1 ? t.far.get() : t.near.get(), 8); s->names[0] = "alpha"; s->names[1] = "beta"; };
            auto client = [&] { c = mk(where == 2 ? t.far.get() : t.root.get(), 7); c->lookup[0] = look == 2 ? "nobody" : "alpha"; if (look == 1) c->lookup[1] = "beta"; c->delayed = delayed; c->link = how != 0; c->op_only = how == 2; };
            if (first) { client(); server(); } else { server(); client(); }
            S = s.get(); C = c.get();
            inject_t inj("at", 255, down);
            for (int i = 0; i < 14; ++i) {
                t.run();
                if (!inj.fired) { inj.late(); continue; }
                // somebody waits: time passes
                bool wait = false; for (auto *a : {S, C}) if (state_of(*a) == r::state_t::INITIALIZING || state_of(*a) == r::state_t::SHUTTING_DOWN) wait = true;
                if (wait && timers()) { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; TIMED_OUT = true; fire_raw(m); continue; }
                break;
            }
            BEFORE_MESSAGE = nullptr;
            for (auto *a : {S, C}) {
                auto st = state_of(*a); vp_debug("state", (vp_u64)st);
                vp_check(st == r::state_t::OPERATIONAL || st == r::state_t::SHUT_DOWN, "everybody settles");
                if (st == r::state_t::SHUT_DOWN && state_of(*REG) == r::state_t::OPERATIONAL) {
                    for (auto &x : REG->access<to2::registered_map>()) vp_check(x.second != a->get_address(), "no name of an actor which is shut down stays in the registry");
                    vp_check(REG->access<to2::reverse_map>().count(a->get_address()) == 0, "the registry forgets an actor which is shut down");
                    for (auto &x : REG->access<to2::promises>()) vp_check(x->payload.origin != a->get_address(), "no lookup of an actor which is shut down stays in the registry");
                }
            }
            if (T && state_of(*T) == r::state_t::OPERATIONAL) vp_check(who(taken == 1 ? "alpha" : "beta") == T->get_address().get(), "the registration of somebody else is not affected");
            if (state_of(*S) == r::state_t::OPERATIONAL) { vp_check(!taken, "an actor whose name is taken does not start"); vp_reach("registered"); vp_check(who("alpha") == S->get_address().get() && who("beta") == S->get_address().get(), "an operational actor is registered under its names"); }
            if (state_of(*C) == r::state_t::OPERATIONAL) { vp_check(look != 2, "an actor whose lookup fails does not start"); vp_reach("discovered"); vp_check(C->found[0] == S->get_address() || (T && C->found[0] == T->get_address()), "the address found is the one registered"); }
            for (auto *a : {S, C}) if (a->life.n_sstart && !a->life.n_init_finish && a->shutdown_reason) {
                auto rc = a->shutdown_reason->root()->ec;
                if (rc == r::make_error_code(r::error_code_t::already_registered)) { vp_reach("name is taken"); vp_check(a == S && taken, "registration fails only when the name is taken"); }
                if (rc == r::make_error_code(r::error_code_t::unknown_service)) { vp_reach("unknown"); vp_check(a == C && !delayed, "only an immediate lookup fails with an unknown name"); }
            }
            vp_log("out", (vp_u64)state_of(*S) * 8 + (vp_u64)state_of(*C));
            if (state_of(*REG) == r::state_t::OPERATIONAL) {
                for (auto *a : {S, C, T}) if (a && state_of(*a) < r::state_t::SHUTTING_DOWN) a->do_shutdown();
                t.run(); if (state_of(*REG) != r::state_t::OPERATIONAL) vp_fail("the registry is not affected by its clients");
                vp_reach("emptied");
                vp_check(REG->access<to2::registered_map>().empty() && REG->access<to2::promises>().empty(), "the registry is empty when everybody is gone");
            }
            t.down();
            vp_reach("end");
        }
        REG = nullptr;
    }
    run.done();
}
