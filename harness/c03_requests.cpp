// C03: every request gets exactly one response: the answer which came before the timer, otherwise a timeout error
#include <vp_rotor.h>
using namespace vp;
struct res_t { vp_u64 v; }; struct req_t { using response_t = res_t; int id; };
using traits = r::request_traits_t<req_t>; using req_msg = traits::request::message_t; using res_msg = traits::response::message_t;
constexpr int N = VP_THOROUGH ? 3 : 2, EVENTS = VP_THOROUGH ? 5 : 4;
struct pending_t { r::intrusive_ptr_t<req_msg> msg; };
struct outcome_t { int n = 0; bool timeout = false, error = false; vp_u64 v = 0; };
static outcome_t GOT[N];
struct server_t : actor_t {
    using actor_t::actor_t; r::intrusive_ptr_t<req_msg> req[N]; int received = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&server_t::on_req); }); }
    void on_req(req_msg &m) noexcept { auto &p = req[m.payload.request_payload.id]; vp_check(!p, "a request is received once"); p.reset(&m); ++received; }
    void ok(int i, vp_u64 v) { reply_to(*req[i], v); }
    void bad(int i) { reply_with_error(*req[i], make_error(r::make_error_code(r::error_code_t::unknown_service))); }
};
struct client_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t server; vp_u64 timer_id[N]; vp_u64 timeout = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&client_t::on_res); }); }
    void ask(int i) { timer_id[i] = request<req_t>(server, i).send(pt::milliseconds{(long)timeout}); }
    void on_res(res_msg &m) noexcept {
        auto &g = GOT[m.payload.req->payload.request_payload.id]; auto &ee = m.payload.ee;
        vp_check(++g.n == 1, "a request is answered once");
        vp_check(m.payload.request_id() == timer_id[m.payload.req->payload.request_payload.id], "the response carries the id of the request");
        if (ee) { g.timeout = ee->ec == r::make_error_code(r::error_code_t::request_timeout); g.error = !g.timeout; } else g.v = m.payload.res.v;
    }
};
static int timer_index(r::request_id_t id) { for (size_t i = 0; i < TIMERS->size(); ++i) if ((*TIMERS)[i].handler->request_id == id) return (int)i; return -1; }
int main() {
    run_t run;
    {
        for (auto &g : GOT) g = outcome_t{};
        unsigned where = vp_choice("where", 3);
        tree_t t(where == 1, where == 2);
        // identifiers close to the overflow must work as well
        if (where == 0 && vp_choice("ids", 2)) t.root->access<to::last_req_id>() = (r::request_id_t)-3;
        t.boot();
        auto *ss = where == 0 ? t.root.get() : where == 1 ? t.near.get() : t.far.get();
        auto c = t.root->create_actor<client_t>().timeout(ms(9)).finish(); auto s = ss->create_actor<server_t>().timeout(ms(9)).finish();
        t.run(); c->server = s->get_address(); c->timeout = vp_range("timeout", 1, 100000);
        size_t t0 = timers();
        for (int i = 0; i < N; ++i) {
            c->ask(i);
            for (int j = 0; j < i; ++j) vp_check(c->timer_id[i] != c->timer_id[j], "request ids differ");
            int ti = timer_index(c->timer_id[i]);
            vp_check(ti >= 0, "a request starts a timer"); vp_check((*TIMERS)[(size_t)ti].interval == pt::milliseconds{(long)c->timeout}, "the timer of a request has the timeout of the request");
        }
        vp_check(timers() == t0 + N, "a timer per request");
        if (!vp_choice("late_delivery", 2)) t.run();
        // the model: what the outcome has to be
        struct m_t { bool queued = false, queued_err = false, done = false, to = false; vp_u64 v; bool done_err = false; vp_u64 qv; bool maybe = false; } m[N];
        auto settle = [&] { t.run(); for (auto &x : m) if (x.queued) { x.queued = false; if (!x.done) { x.done = true; x.done_err = x.queued_err; x.v = x.qv; } } };
        for (int e = 0; e < EVENTS; ++e) {
            int acts[16][2], n = 0; acts[n][0] = 0; acts[n++][1] = 0; // nothing more
            for (int i = 0; i < N; ++i) {
                if (s->req[i]) { acts[n][0] = 1; acts[n++][1] = i; acts[n][0] = 2; acts[n++][1] = i; }
                if (timer_index(c->timer_id[i]) >= 0) { acts[n][0] = 3; acts[n++][1] = i; }
            }
            auto &a = acts[vp_choice("event", (unsigned)n)]; auto &x = m[a[1]];
            if (a[0] == 0) break;
            if (a[0] == 3) {
                vp_check(!x.done, "a request which is answered has no timer");
                fire_raw((size_t)timer_index(c->timer_id[a[1]]));
                x.done = true; x.to = true; vp_reach("timeout");
            } else {
                vp_u64 v = vp_sym("answer", 64);
                if (a[0] == 1) s->ok(a[1], v); else s->bad(a[1]);
                if (!x.queued && !x.done) { x.queued = true; x.queued_err = a[0] == 2; x.qv = v; } else vp_reach("needless answer");
            }
            if (vp_choice("drain", 2)) settle();
        }
        settle();
        for (int i = 0; i < N; ++i) {
            vp_check(GOT[i].n == (m[i].done ? 1 : 0), "exactly one response as soon as the request is answered or timed out");
            if (m[i].done) {
                vp_check(GOT[i].timeout == m[i].to, "a timeout error comes exactly if the timer was first");
                vp_check(GOT[i].error == (!m[i].to && m[i].done_err), "the error of the responder is passed");
                if (!m[i].to && !m[i].done_err) vp_check(GOT[i].v == m[i].v, "the first answer is the response");
            }
            vp_check((timer_index(c->timer_id[i]) >= 0) == !m[i].done, "the timer of a request lives as long as the request");
            vp_log("n", (vp_u64)GOT[i].n);
        }
        for (auto &x : s->req) x.reset();
        // the rest is not answered any more
        while (timers()) { int ti = -1; for (int i = 0; i < N; ++i) if ((ti = timer_index(c->timer_id[i])) >= 0) break; if (ti < 0) break; fire_raw((size_t)ti); }
        t.run();
        for (int i = 0; i < N; ++i) vp_check(GOT[i].n == 1, "every request is answered exactly once");
        vp_check(quiet(*c), "nothing is pending");
        vp_reach("end");
        t.down();
    }
    run.done();
}
