// C04: a response belongs to its request
#include <vp_rotor.h>
using namespace vp;
struct ra_t { vp_u64 sum; }; struct qa_t { using response_t = ra_t; int who, n; vp_u64 body; };
struct rb_t : r::arc_base_t<rb_t> { vp_u64 val; rb_t(vp_u64 v) : val{v} {} }; // a response which is passed by intrusive pointer
struct qb_t : r::arc_base_t<qb_t> { using response_t = r::intrusive_ptr_t<rb_t>; int who, n; vp_u64 body; qb_t(int w, int n_, vp_u64 b) : who{w}, n{n_}, body{b} {} };
struct rc_t {}; struct qc_t { using response_t = rc_t; int who, n; vp_u64 body; };
using ta = r::request_traits_t<qa_t>; using tb = r::request_traits_t<qb_t>; using tc = r::request_traits_t<qc_t>;
constexpr int N = VP_THOROUGH ? 4 : 3, CLIENTS = 2;
struct ask_t { int who = 0, kind = 0, n = 0; bool via = false, fail = false; vp_u64 body = 0; int got = 0; const void *msg = nullptr; vp_u64 id = 0; };
static ask_t ASK[N];
static const r::address_t *EXTRA[CLIENTS];
struct server_t : actor_t {
    using actor_t::actor_t;
    struct p_t { r::intrusive_ptr_t<ta::request::message_t> a; r::intrusive_ptr_t<tb::request::message_t> b; r::intrusive_ptr_t<tc::request::message_t> c; } p[N];
    void configure(r::plugin::plugin_base_t &pl) noexcept override { actor_t::configure(pl); pl.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&server_t::on_a); s.subscribe_actor(&server_t::on_b); s.subscribe_actor(&server_t::on_c); }); }
    template <typename Q> void seen(const Q &q, int kind, const void *m, vp_u64 id) { auto &k = ASK[q.n]; vp_check(k.kind == kind && k.who == q.who && k.body == q.body, "the request arrives as it was sent"); k.msg = m; vp_check(k.id == id, "the request carries the id the requester got"); }
    void on_a(ta::request::message_t &m) noexcept { seen(m.payload.request_payload, 0, &m, m.payload.id); p[m.payload.request_payload.n].a.reset(&m); }
    void on_b(tb::request::message_t &m) noexcept { seen(*m.payload.request_payload, 1, &m, m.payload.id); p[m.payload.request_payload->n].b.reset(&m); }
    void on_c(tc::request::message_t &m) noexcept { seen(m.payload.request_payload, 2, &m, m.payload.id); p[m.payload.request_payload.n].c.reset(&m); }
    void answer(int i) {
        auto &x = p[i];
        auto ee = make_error(r::make_error_code(r::error_code_t::unknown_service));
        if (x.a) { if (ASK[i].fail) reply_with_error(*x.a, ee); else reply_to(*x.a, (ASK[i].body ^ 0x5a5a) + 1); }
        if (x.b) { if (ASK[i].fail) reply_with_error(*x.b, ee); else reply_to(*x.b, (ASK[i].body ^ 0x5a5a) + 1); }
        if (x.c) { if (ASK[i].fail) reply_with_error(*x.c, ee); else reply_to(*x.c); }
        x = p_t{};
    }
};
struct client_t : actor_t {
    using actor_t::actor_t; int me = 0; r::address_ptr_t extra;
    void configure(r::plugin::plugin_base_t &pl) noexcept override {
        actor_t::configure(pl);
        pl.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
            extra = create_address();
            s.subscribe_actor(&client_t::on_a); s.subscribe_actor(&client_t::on_b); s.subscribe_actor(&client_t::on_c);
            s.subscribe_actor(&client_t::on_a, extra); s.subscribe_actor(&client_t::on_b, extra); s.subscribe_actor(&client_t::on_c, extra);
        });
    }
    void ask(int i, const r::address_ptr_t &to) {
        auto &k = ASK[i];
        #define ARGS k.who, k.n, k.body
        switch (k.kind) {
        case 0: k.id = k.via ? request_via<qa_t>(to, extra, ARGS).send(ms(5)) : request<qa_t>(to, ARGS).send(ms(5)); break;
        case 1: k.id = k.via ? request_via<qb_t>(to, extra, ARGS).send(ms(5)) : request<qb_t>(to, ARGS).send(ms(5)); break;
        case 2: k.id = k.via ? request_via<qc_t>(to, extra, ARGS).send(ms(5)) : request<qc_t>(to, ARGS).send(ms(5)); break;
        }
    }
    template <typename M, typename Q> ask_t *check(M &m, const Q &q, int kind) {
        auto &k = ASK[q.n]; ++k.got;
        vp_log("res", (vp_u64)(q.n * 10 + me));
        vp_check(k.who == me && q.who == me, "a response is delivered to the requester only");
        vp_check(k.kind == kind, "a response is of the kind of its request"); vp_check(k.body == q.body, "the original request is intact");
        vp_check(k.msg == nullptr || k.msg == (const void *)m.payload.req.get(), "the response refers to the very request");
        vp_check(m.payload.request_id() == k.id, "the response carries the id of its request");
        vp_check(m.address == (k.via ? extra : address), "the response is delivered to the address the requester named");
        vp_check(!m.payload.ee == !k.fail, "an error comes exactly if the responder reported it");
        return &k;
    }
    void on_a(ta::response::message_t &m) noexcept { auto *k = check(m, m.payload.req->payload.request_payload, 0); if (!k->fail) vp_check(m.payload.res.sum == (k->body ^ 0x5a5a) + 1, "the answer is the one for that request"); }
    void on_b(tb::response::message_t &m) noexcept { auto *k = check(m, *m.payload.req->payload.request_payload, 1); if (!k->fail) vp_check(m.payload.res->val == (k->body ^ 0x5a5a) + 1, "the answer is the one for that request"); }
    void on_c(tc::response::message_t &m) noexcept { check(m, m.payload.req->payload.request_payload, 2); }
};
int main() {
    run_t run;
    {
        for (auto &k : ASK) k = ask_t{};
        unsigned where = vp_choice("where", 2); // the second client is on another loop
        tree_t t(false, where == 1);
        t.boot();
        r::intrusive_ptr_t<client_t> c[CLIENTS]; c[0] = t.root->create_actor<client_t>().timeout(ms(9)).finish(); c[1] = (where ? t.far : t.root)->create_actor<client_t>().timeout(ms(9)).finish(); c[1]->me = 1;
        auto s = t.root->create_actor<server_t>().timeout(ms(9)).finish();
        t.run();
        for (int i = 0; i < N; ++i) {
            auto &k = ASK[i]; k.n = i; k.who = (int)vp_choice("who", 2); unsigned m = vp_choice("kind", 4); k.kind = m == 3 ? 0 : (int)m; k.via = m == 3 || (m == 2 && i == 0); k.body = vp_sym("body", 64);
            c[k.who]->ask(i, s->get_address());
        }
        t.run();
        bool answered[N] = {};
        for (int j = 0; j < N; ++j) {
            int left[N], n = 0; for (int i = 0; i < N; ++i) if (!answered[i]) left[n++] = i;
            int i = left[vp_choice("next", (unsigned)n)]; answered[i] = true;
            if (j == 0) ASK[i].fail = vp_choice("fail", 2);
            s->answer(i);
            if (j == 0 && vp_choice("drain", 2)) t.run();
        }
        t.run();
        for (auto &k : ASK) vp_check(k.got == 1, "each request gets its response");
        vp_check(quiet(*c[0]) && quiet(*c[1]), "nothing is pending");
        vp_reach("end");
        t.down();
    }
    run.done();
}
