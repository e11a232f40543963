ID='resource-counts-lost'; PROP='C21'
NEEDS='an actor which holds a resource and then acquires another one with a bigger identifier'
BREAKS='the count of the resources held before is lost, the initialization ends although a resource is held'
EDITS=[('src/rotor/plugin/resources.cpp','        resources.resize(id + 1);','        resources.assign(id + 1, 0);')]
DEMO=r'''
#include "demo.h"
struct res_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { resources->acquire(0); resources->acquire(1); }, r::plugin::config_phase_t::INITIALIZING);
    }
    auto *res() { return resources; }
};
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx);
    sup_t *l = s.get();
    auto a = s->create_actor<res_t>().timeout(ms(100)).finish();
    drain(l);
    EXPECT(a->res()->has(0) == 1 && a->res()->has(1) == 1);
    a->res()->release(1); drain(l);
    EXPECT(state_of(*a) == r::state_t::INITIALIZING);
    a->res()->release(0); drain(l);
    EXPECT(state_of(*a) == r::state_t::OPERATIONAL);
    down(s, {l});
}
'''
