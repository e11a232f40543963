ID='waiters-of-one-name'; PROP='C16'
NEEDS='two delayed lookups of the same name which came to the registry one directly after the other, before the name is registered'
BREAKS='the second waiting client is not answered when the name is registered, it fails by timeout'
EDITS=[('src/rotor/registry.cpp','''        it = promises.erase(it);
        it = find(it);''','''        it = promises.erase(it);
        if (it != promises.end()) {
            it = find(std::next(it));
        }''')]
DEMO=None
DEMO=r'''
#include "demo.h"
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t a, b, reg; int ok = 0, failed = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { a = create_address(); b = create_address(); s.subscribe_actor(&actor_t::on_found, a); });
    }
    void on_found(r::message::discovery_future_t &m) noexcept { if (m.payload.ee) ++failed; else if (m.payload.res.service_addr == b) ++ok; }
    void add(const char *n, const r::address_ptr_t &s) { request_via<r::payload::registration_request_t>(reg, b, std::string(n), s).send(ms(10)); }
    void wait(const char *n) { request_via<r::payload::discovery_promise_t>(reg, a, std::string(n)).send(ms(10)); }
};
int main() {
    auto ctx = make_ctx();
    auto s = ctx->create_supervisor<sup_t>().timeout(ms(100)).create_registry().finish();
    auto act = s->create_actor<actor_t>().timeout(ms(100)).finish();
    sup_t *l = s.get(); drain(l);
    act->reg = s->access<to::registry>();
    act->wait("x"); act->wait("y"); act->wait("x"); drain(l); EXPECT(act->ok == 0 && act->failed == 0);
    act->add("x", act->b); drain(l); EXPECT(act->ok == 2);
    act->wait("z"); act->wait("z"); act->wait("y"); drain(l); EXPECT(act->ok == 2);
    act->add("z", act->b); drain(l); EXPECT(act->ok == 4);
    act->add("y", act->b); drain(l); EXPECT(act->ok == 6 && act->failed == 0);
    sup_ptr sp(s.get()); down(sp, {l});
}
'''
