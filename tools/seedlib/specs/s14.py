ID='foreign-after-unsubscribe'; PROP='C02'
NEEDS='a message to an address of another locality, which is under way to the subscriber, when the subscriber unsubscribes'
BREAKS='a handler runs although it has been unsubscribed'
EDITS=[('src/rotor/plugin/foreigners_support.cpp','''        if (child_actor->access<to::state>() < state_t::SHUT_DOWN) {
''','''        auto state = child_actor->access<to::state>();
        if (state == state_t::OPERATIONAL) {
            handler->call(message.payload.orig_message); // no need to look it up
        } else if (state < state_t::SHUT_DOWN) {
''')]
DEMO=r'''
#include "demo.h"
struct note_p { int v; };
using note_t = r::message_t<note_p>;
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t at; int got = 0; r::subscription_info_ptr_t info;
    void on_start() noexcept override { r::actor_base_t::on_start(); subscribe(&client_t::on_note, at); }
    void leave() { unsubscribe(&client_t::on_note, at); }
    void on_note(note_t &) noexcept { ++got; }
};
struct src_t : r::actor_base_t { using r::actor_base_t::actor_base_t; void emit() { send<note_p>(address, 1); } };
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx);
    static char la;
    auto s1 = s->create_actor<sup_t>().timeout(ms(100)).locality(&la).finish();
    auto all = {s.get(), s1.get()};
    auto src = s->create_actor<src_t>().timeout(ms(100)).finish();
    auto c = s1->create_actor<client_t>().timeout(ms(100)).finish();
    c->at = src->get_address();
    drain(all);
    src->emit(); drain(all); EXPECT(c->got == 1);
    src->emit(); c->leave(); s1->do_process(); drain(all);
    EXPECT(c->got == 1);
    down(s, all);
}
'''
