ID='child-of-shutting-down'; PROP='C10'
NEEDS='a child which is created while its supervisor already shuts down and waits for another child'
BREAKS='the new child is never asked to shut down, the supervisor never finishes'
EDITS=[('src/rotor/plugin/child_manager.cpp','''    auto &self = actors_map.at(actor->get_address());
    self->shutdown = detail::shutdown_state_t::confirmed;
    extended_error_ptr_t reason;
''','''    auto &self = actors_map.at(actor->get_address());
    bool requested = self->shutdown == detail::shutdown_state_t::confirmed;
    self->shutdown = detail::shutdown_state_t::confirmed;
    extended_error_ptr_t reason;
'''),('src/rotor/plugin/child_manager.cpp','''    assert(reason);
    request_shutdown(reason);
''','''    assert(reason);
    if (!requested) {
        request_shutdown(reason);
    }
''')]
DEMO=r'''
#include "demo.h"
struct plain_t : r::actor_base_t { using r::actor_base_t::actor_base_t; };
struct maker_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::intrusive_ptr_t<plain_t> made; r::supervisor_t *where = nullptr;
    void shutdown_start() noexcept override { made = where->create_actor<plain_t>().timeout(ms(100)).finish(); r::actor_base_t::shutdown_start(); }
};
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx);
    sup_t *l = s.get();
    auto s1 = s->create_actor<sup_t>().timeout(ms(100)).finish();
    auto a = s1->create_actor<maker_t>().timeout(ms(100)).finish();
    a->where = s1.get();
    drain(l);
    down(s, {l});
    EXPECT(a->made && state_of(*a->made) == r::state_t::SHUT_DOWN);
}
'''
