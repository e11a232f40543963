ID='link-before-operational'; PROP='C14'
NEEDS='a server which is initialized, but not started yet, because its supervisor synchronizes the start and waits for another child'
BREAKS='a link to an operational server only is confirmed before the server operates'
EDITS=[('src/rotor/plugin/link_server.cpp','    if (operational_only && state < state_t::OPERATIONAL) {','    if (operational_only && state < state_t::INITIALIZED) {')]
DEMO=r'''
#include "demo.h"
struct plain_t : r::actor_base_t { using r::actor_base_t::actor_base_t; };
struct slow_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { resources->acquire(0); }, r::plugin::config_phase_t::INITIALIZING);
    }
    void go() { resources->release(0); }
};
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::actor_base_t *server = nullptr; int linked = 0, early = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &s) { s.link(server->get_address(), true, [this](auto &ec) { if (!ec) { ++linked; if (state_of(*server) != r::state_t::OPERATIONAL) ++early; } }); });
    }
};
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx);
    sup_t *l = s.get(); drain(l);
    auto sub = s->create_actor<sup_t>().timeout(ms(100)).synchronize_start().finish();
    auto srv = sub->create_actor<plain_t>().timeout(ms(100)).finish();
    auto slow = sub->create_actor<slow_t>().timeout(ms(100)).finish();
    drain(l);
    EXPECT(state_of(*srv) == r::state_t::INITIALIZED);
    auto c = s->create_actor<client_t>().timeout(ms(100)).finish();
    c->server = srv.get();
    drain(l);
    EXPECT(c->linked == 0 && c->early == 0);
    slow->go(); drain(l);
    EXPECT(c->linked == 1 && c->early == 0);
    down(s, {l});
}
'''
