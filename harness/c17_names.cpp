// C17: several names of one server, which appear at different times: each lookup of a client is resolved once, first discovered, then linked
#include <vp_rotor.h>
using namespace vp;
using phase_t = r::plugin::registry_plugin_t::phase_t;
static r::address_ptr_t *OTHER; static unsigned HELD;
struct server_t : actor_t {
    using actor_t::actor_t; const char *names[2] = {}; bool foreign = false, slow = false, held = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) { for (auto *n : names) if (n) p.register_name(n, foreign ? *OTHER : address); }); // on behalf of another actor
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow && !held) { held = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void let_go() { held = false; resources->release(); }
};
struct client_t : actor_t {
    using actor_t::actor_t; const char *names[2] = {}; bool delayed[2] = {}, op_only = false, slow = false, held = false; r::address_ptr_t found[2]; int seen[2] = {};
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            for (int i = 0; i < 2; ++i) if (names[i]) p.discover_name(names[i], found[i], delayed[i]).link(op_only).callback([this, i](phase_t ph, const r::extended_error_ptr_t &ec) {
                vp_check(!ec, "a lookup of a registered name is resolved"); vp_check((bool)found[i], "the address is known when the progress is reported");
                vp_check(seen[i] == (ph == phase_t::discovering ? 0 : 1), "each lookup is first discovered, then linked, once"); ++seen[i];
                vp_check(life.n_init_finish == 0, "lookups are resolved during the initialization");
            });
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow && !held) { held = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_finish() noexcept override { for (int i = 0; i < 2; ++i) if (names[i]) vp_check(found[i] && seen[i] == 2, "a client is initialized only after its lookups are resolved and linked"); actor_t::init_finish(); }
    void let_go() { held = false; resources->release(); }
};
static r::intrusive_ptr_t<server_t> *S, *R; static sup_t *ROOT;
static void late() { if (*R) return; *R = ROOT->create_actor<server_t>().timeout(ms(9)).finish(); (*R)->names[0] = "beta"; (*R)->foreign = true; }
int main() {
    run_t run;
    {
        r::intrusive_ptr_t<server_t> s, b; S = &s; R = &b;
        {
            unsigned where = vp_choice("where", 3);               // all on one loop, the server or the client has its own
            unsigned when = vp_choice("beta", 4);                 // the second name: of the server itself, registered before, at any message, after the rest has settled
            unsigned order = vp_choice("order", 2); bool op = vp_choice("operational only", 2), d0 = vp_choice("delayed", 2); unsigned slow = vp_choice("slow", 4);
            if (!VP_THOROUGH && slow == 3) vp_end();
            tree_t t(true, where != 0); ROOT = t.root.get();
            auto reg = t.root->create_actor<r::registry_t>().timeout(ms(20)).finish();
            t.root->access<to::registry_address>() = reg->get_address(); t.near->access<to::registry_address>() = reg->get_address(); if (t.far) t.far->access<to::registry_address>() = reg->get_address();
            t.boot();
            s = (where == 1 ? t.far : t.near)->create_actor<server_t>().timeout(ms(8)).finish(); s->names[0] = "alpha"; if (!when) s->names[1] = "beta"; s->slow = slow & 1;
            auto addr = s->get_address(); OTHER = &addr;
            if (when == 1) late();
            if (!d0) { t.run(); } // an immediate lookup finds what is already there
            auto c = (where == 2 ? t.far : t.root)->create_actor<client_t>().timeout(ms(7)).finish(); unsigned a = order;
            c->names[a] = "alpha"; c->names[1 - a] = "beta"; c->delayed[a] = d0; c->delayed[1 - a] = true; c->op_only = op; c->slow = slow & 2;
            inject_t inj("at", 63, late); if (when != 2) inj.fired = true;
            for (int i = 0; i < 8; ++i) {
                t.run();
                if (s->held && vp_choice("server ready", 2)) { s->let_go(); continue; }
                if (c->held && vp_choice("client ready", 2)) { c->let_go(); continue; }
                if (!inj.fired) { inj.late(); continue; }
                if (when == 3 && !b) { vp_check(c->life.n_init_finish == 0, "a delayed lookup waits for its name"); late(); continue; }
                if (s->held) { s->let_go(); continue; }
                if (c->held) { c->let_go(); continue; }
                break;
            }
            BEFORE_MESSAGE = nullptr;
            vp_check(W->fatal == 0, "nothing fails");
            vp_check(state_of(*s) == r::state_t::OPERATIONAL && state_of(*c) == r::state_t::OPERATIONAL, "server and client are operational, nobody waits for a timeout");
            vp_check(c->seen[0] == 2 && c->seen[1] == 2 && c->found[0] == addr && c->found[1] == addr, "all lookups are resolved with the address of the server");
            vp_check(timers() == 0, "nobody waits for anything any more");
            vp_reach("operational");
            s->do_shutdown(); t.run();
            vp_check(state_of(*c) == r::state_t::SHUT_DOWN && state_of(*s) == r::state_t::SHUT_DOWN, "a client which is linked to a server goes down with it");
            addr.reset(); c->found[0].reset(); c->found[1].reset();
            t.down(); OTHER = nullptr;
            s.reset(); b.reset();
            vp_reach("end");
        }
    }
    run.done();
}
