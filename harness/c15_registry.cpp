// C15: names and addresses; C16: delayed lookups
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 15
#endif
using namespace std::string_literals;
static const char *NAMES[] = {"alpha", "beta", "gamma"};
#if MODE == 15
constexpr int OPS = VP_THOROUGH ? 6 : 5, NN = 2, NA = 2;
#else
constexpr int OPS = VP_THOROUGH ? 5 : 4, NN = 2, NA = 2;
#endif
enum kind_t { REG, DEREG, DEREG_NAME, LOOKUP, PROMISE, CANCEL, EXPIRE };
// what the answer has to be
struct ask_t { kind_t kind; int name; r::request_id_t id; int got = 0; bool ok = false; const r::address_t *addr = nullptr; r::error_code_t ec = r::error_code_t::success;
    bool expect_ok = false; const r::address_t *expect = nullptr; r::error_code_t expect_ec = r::error_code_t::success; bool due = false; int who = 0; };
static std::vector<ask_t> *ASKS;
static ask_t *find(r::request_id_t id, int who) { for (auto &a : *ASKS) if (a.id == id && a.who == who) return &a; return nullptr; }
struct client_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t at; int me = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
            at = create_address();
            s.subscribe_actor(&client_t::on_reg, at); s.subscribe_actor(&client_t::on_lookup, at); s.subscribe_actor(&client_t::on_future, at);
        });
    }
    template <typename M> ask_t *seen(M &m, kind_t k) {
        auto *a = find(m.payload.request_id(), me); vp_check(a && a->kind == k, "an answer belongs to a request of the client");
        vp_check(m.payload.req->payload.request_payload.service_name == NAMES[a->name], "an answer names the service asked for");
        ++a->got; vp_check(a->got == 1, "a request to the registry is answered exactly once");
        a->ok = !m.payload.ee; if (m.payload.ee) a->ec = (r::error_code_t)m.payload.ee->root()->ec.value();
        vp_log("answer", (vp_u64)(a - ASKS->data()) * 100 + (vp_u64)a->ec * 2 + a->ok);
        return a;
    }
    void on_reg(r::message::registration_response_t &m) noexcept { seen(m, REG); }
    void on_lookup(r::message::discovery_response_t &m) noexcept { auto a = seen(m, LOOKUP); a->addr = m.payload.res.service_addr.get(); }
    void on_future(r::message::discovery_future_t &m) noexcept { auto a = seen(m, PROMISE); a->addr = m.payload.res.service_addr.get(); }
    template <typename Q, typename... A> void ask(const r::address_ptr_t &to, ask_t a, A &&...args) { a.who = me; a.id = request_via<Q>(to, at, std::forward<A>(args)...).send(ms(5)); ASKS->push_back(a); }
};
static void settle(ask_t &a) { // everything which is due has come, and nothing else
    if (!a.due) { vp_check(a.got == 0, "a lookup of a name which is not registered is not answered before the name is registered"); return; }
    vp_check(a.got == 1, "a request to the registry is answered");
    vp_check(a.ok == a.expect_ok, "the registry confirms what it should and refuses what it should");
    if (a.ok) vp_check(a.addr == a.expect, "a name resolves to the address of its last registration"); else vp_check(a.ec == a.expect_ec, "the registry tells the reason");
}
int main() {
    run_t run;
    {
        std::vector<ask_t> asks; ASKS = &asks; asks.reserve(64);
        bool far = MODE == 15 ? (VP_THOROUGH ? vp_choice("far", 2) : 0) : vp_choice("far", 2);
        {
            tree_t t(false, far); auto regy = t.root->create_actor<r::registry_t>().timeout(ms(5)).finish();
            r::intrusive_ptr_t<client_t> c[2];
            for (int i = 0; i < 2; ++i) { c[i] = (far && i == 1 ? t.far : t.root)->create_actor<client_t>().timeout(ms(5)).finish(); c[i]->me = i; }
            t.boot();
            if (far) t.far->access<to::last_req_id>() = t.root->access<to::last_req_id>(); // the ids of different loops may be equal
            auto to = regy->get_address();
            r::address_ptr_t addr[NA]; for (auto &a : addr) a = t.root->make_address();
            const r::address_t *model[3] = {}; // the reference: who is registered under the name
            for (int step = 0; step < OPS; ++step) {
                unsigned op; kind_t kind;
                if (MODE == 15) kind = (kind_t)(step == 0 ? 0 : vp_choice("op", 4));
                else { static const kind_t k[] = {PROMISE, REG, CANCEL, DEREG_NAME, EXPIRE}; kind = k[step == 0 ? 0 : vp_choice("op", VP_THOROUGH ? 5 : 4)]; if (!VP_THOROUGH && kind == DEREG_NAME && vp_choice("expire", 2)) kind = EXPIRE; }
                auto name = [&] { return (int)vp_choice("name", NN); };
                switch (kind) {
                case REG: {
                    int n = step == 0 ? 0 : name(), a = MODE == 16 ? n : step == 0 ? 0 : (int)vp_choice("addr", NA);
                    ask_t k{REG, n}; k.due = true; k.expect_ok = model[n] == nullptr; k.expect_ec = r::error_code_t::already_registered;
                    if (!model[n]) { model[n] = addr[a].get(); for (auto &w : asks) if (w.kind == PROMISE && !w.due && w.name == n) { w.due = true; w.expect_ok = true; w.expect = addr[a].get(); } }
                    c[0]->ask<r::payload::registration_request_t>(to, k, NAMES[n], addr[a]); break;
                }
                case DEREG: { int a = (int)vp_choice("addr", NA); for (auto &m : model) if (m == addr[a].get()) m = nullptr; c[0]->send<r::payload::deregistration_notify_t>(to, addr[a]); break; }
                case DEREG_NAME: { int n = name(); model[n] = nullptr; c[0]->send<r::payload::deregistration_service_t>(to, NAMES[n]); break; }
                case LOOKUP: { int n = name(); ask_t k{LOOKUP, n}; k.due = true; k.expect_ok = model[n]; k.expect = model[n]; k.expect_ec = r::error_code_t::unknown_service; c[0]->ask<r::payload::discovery_request_t>(to, k, NAMES[n]); break; }
                case PROMISE: {
                    int n = step == 0 ? 0 : name(), who = step == 0 ? 0 : (int)vp_choice("who", 2);
                    ask_t k{PROMISE, n}; k.due = model[n]; k.expect_ok = model[n]; k.expect = model[n];
                    c[who]->ask<r::payload::discovery_promise_t>(to, k, NAMES[n]); break;
                }
                case CANCEL: case EXPIRE: {
                    std::vector<int> w; for (size_t i = 0; i < asks.size(); ++i) if (asks[i].kind == PROMISE && (kind == CANCEL || !asks[i].due)) w.push_back((int)i);
                    if (w.empty()) vp_end();
                    auto &a = asks[w[vp_choice("which", (unsigned)w.size())]]; bool due = a.due;
                    if (!due) { a.due = true; a.expect_ok = false; a.expect_ec = kind == CANCEL ? r::error_code_t::cancelled : r::error_code_t::request_timeout; }
                    if (kind == CANCEL) { c[a.who]->send<r::message::discovery_cancel_t::payload_t>(to, a.id, c[a.who]->at); if (!due) vp_reach("cancelled"); }
                    else { size_t m = timers(); for (size_t i = 0; i < timers(); ++i) if ((*TIMERS)[i].handler->request_id == a.id && (*TIMERS)[i].sup == (a.who == 1 && far ? t.far.get() : t.root.get())) m = i; if (m == timers()) vp_fail("a request which is not answered has a timer"); fire_raw(m); }
                    break;
                }
                }
                if (MODE == 16 && !far && !vp_choice("wait", 2)) continue; // several operations at once (the order of what different loops send is not defined)
                t.run();
                for (auto &a : asks) settle(a);
            }
            t.run();
            for (auto &a : asks) { settle(a); if (a.kind == PROMISE && a.due && a.expect_ok) vp_reach("answered"); }
            // the registry is what the reference says
            size_t before = asks.size();
            for (int n = 0; n < NN; ++n) { ask_t k{LOOKUP, n}; k.due = true; k.expect_ok = model[n]; k.expect = model[n]; k.expect_ec = r::error_code_t::unknown_service; c[1]->ask<r::payload::discovery_request_t>(to, k, NAMES[n]); }
            t.run(); for (size_t i = before; i < asks.size(); ++i) settle(asks[i]);
            // nothing is left behind when all the names are revoked
            for (int n = 0; n < NN; ++n) if (model[n]) c[0]->send<r::payload::deregistration_service_t>(to, NAMES[n]);
            t.run();
            bool waiting = false; for (auto &a : asks) if (!a.due) waiting = true;
            if (!waiting) for (auto &a : addr) vp_check(a->use_count() == 1, "the registry forgets the addresses all the names of which are revoked");
            vp_reach("end");
            t.down();
        }
        ASKS = nullptr;
    }
    run.done();
}
