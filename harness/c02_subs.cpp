// C02: who handles a message (a handler which is subscribed again before its unsubscription took place may be called for both). Compared with a reference model of the queue: a subscription is effective at once, an unsubscription when its turn in the queue comes.
#include <vp_rotor.h>
using namespace vp;
struct ta_t { vp_u64 body; int id; }; struct tb_t { vp_u64 body; int id; };
using msg_a = r::message_t<ta_t>; using msg_b = r::message_t<tb_t>;
constexpr int ACTORS = 2, ADDRS = VP_THOROUGH ? 3 : 2, TYPES = 2, STEPS = 3;
struct slot_t { bool on = false; int live = 0; r::handler_ptr_t handler; }; // live: the subscriptions, also those the removal of which is under way
static vp_u64 BODY[8]; static int HANDLED[8 * ACTORS * TYPES]; // [message][actor][type of the handler]
static int hidx(int m, int a, int t) { return (m * ACTORS + a) * TYPES + t; }
struct sub_t : actor_t {
    using actor_t::actor_t; int me = 0;
    void on_a(msg_a &m) noexcept { note(m.payload.id, 0, m.payload.body); }
    void on_b(msg_b &m) noexcept { note(m.payload.id, 1, m.payload.body); }
    void note(int id, int type, vp_u64 body) {
        vp_check(state != r::state_t::SHUT_DOWN, "no message is handled by an actor which is shut down");
        vp_check(body == BODY[id], "the payload is unchanged"); ++HANDLED[hidx(id, me, type)];
    }
};
struct qe_t { int kind; int id, addr, type, actor; }; // 0 message, 1 unsubscription
struct op_t { int kind, actor, addr, type; };         // 0 send, 1 subscribe, 2 unsubscribe, 3 shut down
int main() {
    run_t run;
    {
        for (auto &h : HANDLED) h = 0;
        int expected[8 * ACTORS * TYPES] = {}, most[8 * ACTORS * TYPES] = {};
        tree_t t(true);
        t.boot();
        r::intrusive_ptr_t<sub_t> act[ACTORS]; act[0] = t.root->create_actor<sub_t>().timeout(ms(9)).finish(); act[1] = t.near->create_actor<sub_t>().timeout(ms(9)).finish();
        act[1]->me = 1; t.run();
        // a main address, an additional address, the main address on another supervisor
        r::address_ptr_t addr[3] = {act[0]->get_address(), act[0]->create_address(), act[1]->get_address()};
        slot_t sl[ACTORS][ADDRS][TYPES]; bool gone[ACTORS] = {};
        std::vector<qe_t> q; int n = 0;
        auto sub = [&](int a, int d, int k) {
            auto &s = sl[a][d][k]; s.on = true; ++s.live;
            s.handler = (k == 0 ? act[a]->subscribe(&sub_t::on_a, addr[d]) : act[a]->subscribe(&sub_t::on_b, addr[d]))->handler;
        };
        auto drain = [&] {
            for (auto &e : q) {
                if (e.kind == 0) { for (int a = 0; a < ACTORS; ++a) if (int l = sl[a][e.addr][e.type].live) { ++expected[hidx(e.id, a, e.type)]; most[hidx(e.id, a, e.type)] += l; } }
                else --sl[e.actor][e.addr][e.type].live;
            }
            q.clear(); t.run();
        };
        switch (vp_choice("initial", 3)) { case 1: sub(0, 0, 0); sub(1, 0, 0); break; case 2: sub(0, 0, 0); sub(0, 0, 1); sub(1, 1, 0); break; }
        for (int i = 0; i < STEPS; ++i) {
            op_t ops[64]; int c = 0;
            for (int d = 0; d < ADDRS; ++d) for (int k = 0; k < TYPES; ++k) ops[c++] = {0, 0, d, k};
            for (int a = 0; a < ACTORS; ++a) if (!gone[a]) {
                for (int d = 0; d < ADDRS; ++d) for (int k = 0; k < TYPES; ++k) { auto &s = sl[a][d][k]; if (!s.on) ops[c++] = {1, a, d, k}; else ops[c++] = {2, a, d, k}; }
                if (i) ops[c++] = {3, a, 0, 0};
            }
            auto o = ops[vp_choice("op", (unsigned)c)];
            if (o.kind == 0) {
                BODY[n] = vp_sym("body", 64);
                if (o.type == 0) t.root->send<ta_t>(addr[o.addr], ta_t{BODY[n], n}); else t.near->send<tb_t>(addr[o.addr], tb_t{BODY[n], n});
                q.push_back({0, n++, o.addr, o.type, 0});
            } else if (o.kind == 1) sub(o.actor, o.addr, o.type);
            else if (o.kind == 2) {
                auto &s = sl[o.actor][o.addr][o.type]; auto &a = act[o.actor]; s.on = false;
                if (a->get_address() == addr[o.addr] && o.type == 0) { if (o.actor) a->unsubscribe(s.handler); else a->unsubscribe(&sub_t::on_a); } // the forms of the interface
                else if (o.type == 0) a->unsubscribe(&sub_t::on_a, addr[o.addr]); else a->unsubscribe(&sub_t::on_b, addr[o.addr]);
                q.push_back({1, 0, o.addr, o.type, o.actor});
            } else { // an actor shuts down: all its own subscriptions are gone then
                drain();
                act[o.actor]->do_shutdown(); t.run(); gone[o.actor] = true;
                vp_check(state_of(*act[o.actor]) == r::state_t::SHUT_DOWN, "the actor shuts down");
                for (auto &x : sl[o.actor]) for (auto &y : x) y = slot_t{};
            }
            if (o.kind != 3 && i + 1 < STEPS && vp_choice("drain", 2)) drain();
        }
        drain();
        for (int m = 0; m < n; ++m) for (int a = 0; a < ACTORS; ++a) for (int k = 0; k < TYPES; ++k) {
            int h = HANDLED[hidx(m, a, k)], x = expected[hidx(m, a, k)], y = most[hidx(m, a, k)];
            vp_log("handled", (vp_u64)h);
            if (x) vp_reach("handled");
            vp_check(h >= x, "every subscriber handles the message");
            vp_check(h <= y, "nobody handles the message twice or without a subscription");
        }
        vp_reach("end");
        for (auto &x : sl) for (auto &y : x) for (auto &z : y) z = slot_t{};
        for (auto &x : addr) x.reset();
        t.down();
    }
    run.done();
}
