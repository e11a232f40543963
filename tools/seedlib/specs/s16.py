ID='start-of-initializing'; PROP='C07'
NEEDS='a child which is created under a synchronized start after the supervisor finished its initialization, but before it starts'
BREAKS='the child is started while it still initializes'
EDITS=[('src/rotor/plugin/starter.cpp','    if (actor->access<to::state>() != state_t::INITIALIZED) {','    if (actor->access<to::state>() > state_t::INITIALIZED) {')]
DEMO=r'''
#include "demo.h"
struct plain_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t; int bad = 0, started = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { resources->acquire(0); }, r::plugin::config_phase_t::INITIALIZING);
    }
    void on_start() noexcept override { ++started; if (state != r::state_t::INITIALIZED) ++bad; r::actor_base_t::on_start(); }
    void go() { resources->release(0); }
};
struct late_t : sup_t {
    using sup_t::sup_t; r::intrusive_ptr_t<plain_t> made;
    void init_finish() noexcept override { sup_t::init_finish(); made = create_actor<plain_t>().timeout(ms(100)).finish(); }
};
int main() {
    auto ctx = make_ctx();
    auto s = ctx->create_supervisor<late_t>().timeout(ms(100)).synchronize_start().finish();
    sup_t *l = s.get();
    drain(l);
    auto p = s->made;
    EXPECT(p && p->bad == 0);
    EXPECT(state_of(*p) == r::state_t::INITIALIZING);
    p->go(); drain(l);
    EXPECT(p->started == 1 && p->bad == 0 && state_of(*p) == r::state_t::OPERATIONAL);
    sup_ptr sp(s.get()); down(sp, {l});
}
'''
