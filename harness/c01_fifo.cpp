// C01: order of the messages between one sender and one receiver
#include <vp_rotor.h>
using namespace vp;
struct x_t { int token; }; struct y_t { int token; vp_u64 body; };
struct back_t { int token; };
struct res_t { int token; };
struct req_t { using response_t = res_t; int token; };
namespace msg { using x = r::message_t<x_t>; using y = r::message_t<y_t>; using back = r::message_t<back_t>; using req = r::request_traits_t<req_t>::request::message_t; using res = r::request_traits_t<req_t>::response::message_t; using go = r::message_t<int>; }
static std::vector<int> *AB, *BA; // tokens which were sent and not yet seen
static int TOKEN, SEEN;
static void sent(std::vector<int> *q, int t) { q->push_back(t); }
static void seen(std::vector<int> *q, int t, const char *m) { vp_log("order", (vp_u64)t); vp_check(!q->empty() && q->front() == t, m); q->erase(q->begin()); ++SEEN; }
constexpr int OPS = VP_THOROUGH ? 5 : 4;
struct peer_t : actor_t {
    using actor_t::actor_t;
    std::vector<r::intrusive_ptr_t<msg::req>> pending; r::address_ptr_t other; std::vector<int> error_tokens;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&peer_t::on_x); s.subscribe_actor(&peer_t::on_y); s.subscribe_actor(&peer_t::on_req); });
    }
    void back() { int t = ++TOKEN; sent(BA, t); send<back_t>(other, back_t{t}); }
    void answer(msg::req &m) { int t = ++TOKEN; sent(BA, t); reply_to(m, t); }
    void on_x(msg::x &m) noexcept { seen(AB, m.payload.token, "the receiver handles messages in the order they were sent"); back(); for (auto &r : pending) { answer(*r); back(); } pending.clear(); }
    void on_y(msg::y &m) noexcept { seen(AB, m.payload.token, "the receiver handles messages in the order they were sent"); vp_check(m.payload.body == BODY, "payload"); }
    void on_req(msg::req &m) noexcept {
        seen(AB, m.payload.request_payload.token, "the receiver handles messages in the order they were sent");
        switch (vp_choice("reply", 3)) {
        case 0: answer(m); break;
        case 1: back(); answer(m); back(); break;
        case 2: pending.emplace_back(&m); break;
        }
    }
    static inline vp_u64 BODY = 0;
};
struct asker_t : actor_t {
    using actor_t::actor_t;
    r::address_ptr_t other;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&asker_t::on_back); s.subscribe_actor(&asker_t::on_res); s.subscribe_actor(&asker_t::on_go); });
    }
    void burst(int n) {
        for (int i = 0; i < n; ++i) {
            int t = ++TOKEN; sent(AB, t);
            switch (vp_choice("op", 3)) {
            case 0: send<x_t>(other, x_t{t}); break;
            case 1: send<y_t>(other, y_t{t, peer_t::BODY}); break;
            case 2: request<req_t>(other, t).send(ms(5)); break;
            }
        }
    }
    void on_go(msg::go &m) noexcept { burst(m.payload); }
    void on_back(msg::back &m) noexcept { seen(BA, m.payload.token, "messages and responses come back in the order they were sent"); }
    void on_res(msg::res &m) noexcept { vp_check(!m.payload.ee, "response without error"); seen(BA, m.payload.res.token, "messages and responses come back in the order they were sent"); }
};
int main() {
    run_t run;
    {
        std::vector<int> ab, ba; AB = &ab; BA = &ba; TOKEN = SEEN = 0; peer_t::BODY = vp_sym("body", 64);
        unsigned where = vp_choice("where", 4); // 0: one supervisor, 1: receiver on a child supervisor, 2: receiver on another loop, 3: sender on another loop
        tree_t t(where == 1, where >= 2);
        auto *sa = where == 3 ? t.far.get() : t.root.get(), *sb = where == 1 ? t.near.get() : where == 2 ? t.far.get() : t.root.get();
        t.boot();
        auto a = sa->create_actor<asker_t>().timeout(ms(9)).finish(); auto b = sb->create_actor<peer_t>().timeout(ms(9)).finish();
        t.run();
        a->other = b->get_address(); b->other = a->get_address();
        unsigned first = vp_choice("first", OPS + 1); // messages sent from outside of the loop first, then from a handler
        a->burst((int)first);
        if (vp_choice("drain", 2)) pump({t.root.get(), t.far.get()});
        a->send<int>(a->get_address(), OPS - (int)first);
        pump({t.root.get(), t.far.get()});
        if (!b->pending.empty()) { int tk = ++TOKEN; sent(AB, tk); a->send<x_t>(b->get_address(), x_t{tk}); pump({t.root.get(), t.far.get()}); }
        vp_check(ab.empty() && ba.empty(), "every message arrives");
        t.down();
        AB = BA = nullptr;
        vp_reach("end");
    }
    run.done();
}
