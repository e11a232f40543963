ID='promise-cancel-foreign'; PROP='C16'
NEEDS='two localities which wait for different names with the same request number, and a cancellation of the one that asked first'
BREAKS='cancelling a delayed lookup cancels the lookup of an actor of another locality'
EDITS=[('src/rotor/registry.cpp','return msg->payload.id == request_id && msg->payload.origin == client_addr;','return msg->payload.id == request_id;'),
       ('src/rotor/registry.cpp','    auto &client_addr = notify.payload.source;\n','')]
DEMO=r'''
#include "demo.h"
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t reg, back; int ok = 0, cancelled = 0; r::request_id_t id = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { back = create_address(); s.subscribe_actor(&actor_t::on_found, back); });
    }
    void on_found(r::message::discovery_future_t &m) noexcept { if (m.payload.ee) ++cancelled; else ++ok; }
    void wait(const char *n) { id = request_via<r::payload::discovery_promise_t>(reg, back, std::string(n)).send(ms(1000)); }
    void cancel() { send<r::message::discovery_cancel_t::payload_t>(reg, id, back); }
    void add(const char *n) { send<r::payload::deregistration_service_t>(reg, std::string("none")); request_via<r::payload::registration_request_t>(reg, back, std::string(n), back).send(ms(10)); }
};
int main() {
    auto ctx = make_ctx();
    auto s = ctx->create_supervisor<sup_t>().timeout(ms(100)).create_registry().finish();
    static char la, lb;
    auto s1 = s->create_actor<sup_t>().timeout(ms(100)).locality(&la).finish();
    auto s2 = s->create_actor<sup_t>().timeout(ms(100)).locality(&lb).finish();
    auto a = s1->create_actor<actor_t>().timeout(ms(100)).finish();
    auto b = s2->create_actor<actor_t>().timeout(ms(100)).finish();
    auto c = s->create_actor<actor_t>().timeout(ms(100)).finish();
    auto all = {static_cast<sup_t *>(s.get()), s1.get(), s2.get()};
    drain(all);
    a->reg = b->reg = c->reg = s->access<to::registry>();
    a->wait("x"); b->wait("y"); drain(all);
    EXPECT(a->id == b->id);
    a->cancel(); drain(all);
    EXPECT(a->cancelled == 1 && b->cancelled == 0);
    c->add("y"); drain(all);
    EXPECT(b->ok == 1 && b->cancelled == 0);
    sup_ptr sp(s.get()); down(sp, all);
}
'''
