ID='pending-request-at-shutdown'; PROP='C06'
NEEDS='an actor which shuts down with two pending requests'
BREAKS='a request survives the shutdown of the actor which made it'
EDITS=[('src/rotor/actor_base.cpp','''    while (!active_requests.empty()) {
        supervisor->do_cancel_timer(*active_requests.begin());
    }
''','''    if (!active_requests.empty()) {
        supervisor->do_cancel_timer(*active_requests.begin());
    }
''')]
DEMO=r'''
#include "demo.h"
struct res_p { int v; };
struct req_p { using response_t = res_p; int v; };
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t at;
    void ask() { request<req_p>(at, 0).send(ms(100)); }
    size_t pending() { return active_requests.size(); }
};
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx);
    sup_t *l = s.get();
    auto c = s->create_actor<client_t>().timeout(ms(100)).finish();
    c->at = s->create_address();
    drain(l);
    c->ask(); c->ask(); drain(l); EXPECT(c->pending() == 2 && timers.size() == 2);
    c->do_shutdown(); drain(l);
    EXPECT(state_of(*c) == r::state_t::SHUT_DOWN);
    EXPECT(c->pending() == 0 && timers.empty());
    down(s, {l});
}
'''
