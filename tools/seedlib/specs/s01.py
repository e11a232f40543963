ID='registry-revoked-name'; PROP='C15'
NEEDS='an address with two names, one of them revoked by name and taken over by another address, then the first address is revoked as a whole'
BREAKS='revoking an address removes a name which belongs to another address by then'
EDITS=[('src/rotor/registry.cpp','        names.erase(name);\n','        if (names.size() == 1) {\n            names.erase(name);\n        }\n')]
DEMO=r'''
#include "demo.h"
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t a, b, reg; int ok = 0, failed = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { a = create_address(); b = create_address(); s.subscribe_actor(&actor_t::on_found, a); });
    }
    void on_found(r::message::discovery_response_t &m) noexcept { if (m.payload.ee) ++failed; else if (m.payload.res.service_addr == b) ++ok; }
    void add(const char *n, const r::address_ptr_t &s) { request_via<r::payload::registration_request_t>(reg, b, std::string(n), s).send(ms(10)); }
    void find(const char *n) { request_via<r::payload::discovery_request_t>(reg, a, std::string(n)).send(ms(10)); }
    void drop_name(const char *n) { send<r::payload::deregistration_service_t>(reg, std::string(n)); }
    void drop(const r::address_ptr_t &s) { send<r::payload::deregistration_notify_t>(reg, s); }
};
int main() {
    auto ctx = make_ctx();
    auto s = ctx->create_supervisor<sup_t>().timeout(ms(100)).create_registry().finish();
    auto act = s->create_actor<actor_t>().timeout(ms(100)).finish();
    sup_t *l = s.get(); drain(l);
    act->reg = s->access<to::registry>();
    act->add("x", act->a); act->add("y", act->a); drain(l);
    act->drop_name("x"); act->add("x", act->b); drain(l);
    act->find("x"); drain(l); EXPECT(act->ok == 1 && act->failed == 0);
    act->drop(act->a); drain(l);
    act->find("y"); drain(l); EXPECT(act->failed == 1);
    act->find("x"); drain(l); EXPECT(act->ok == 2);
    sup_ptr sp(s.get()); down(sp, {l});
}
'''
