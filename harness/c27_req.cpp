// The thread backend: requests with timeouts, where client and server block, answer late or never.
#include "vp_rotor.h"
#include "rotor/thread.hpp"
namespace rth = rotor::thread;
namespace { vp_u64 NOW = 1000000000000ul; constexpr vp_u64 us = 1000, MS = VP_THOROUGH ? 60 : 14; }
extern "C" vp_u64 vp_now_ns(void) { return NOW; }
namespace {
struct res_t { int v; }; struct req_t { using response_t = res_t; int v; };
struct go_t {};
using request_t = r::request_traits_t<req_t>::request::message_t; using response_t = r::request_traits_t<req_t>::response::message_t;
void work(const char *n) { NOW += vp_range(n, 0, MS) * 1000 * us; }
constexpr int N = 2;
struct server_t : vp::actor_t {
    using vp::actor_t::actor_t;
    std::vector<r::intrusive_ptr_t<request_t>> later; int replied[N] = {};
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        vp::actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&server_t::on_req)->tag_io(); });
    }
    void on_req(request_t &m) noexcept {
        work("server");
        switch (vp_choice("answer", 3)) { case 0: ++replied[m.payload.request_payload.v]; reply_to(m, m.payload.request_payload.v); break;
            case 1: later.push_back(&m); start_timer(pt::milliseconds{(long)vp_range("delay", 1, MS)}, *this, &server_t::on_timer); break; default:; }
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        auto m = later.front(); later.erase(later.begin());
        if (cancelled) return;
        ++replied[m->payload.request_payload.v]; reply_to(*m, m->payload.request_payload.v);
    }
    void shutdown_finish() noexcept override { vp::actor_t::shutdown_finish(); later.clear(); }
};
struct client_t : vp::actor_t {
    using vp::actor_t::actor_t;
    r::address_ptr_t server; server_t *sv; int sent = 0, got[N] = {}; vp_u64 deadline[N]; r::request_id_t id[N];
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        vp::actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&client_t::on_res); p.subscribe_actor(&client_t::on_go)->tag_io(); });
    }
    void on_start() noexcept override { vp::actor_t::on_start(); send<go_t>(address); }
    void ask() { auto t = vp_range("timeout", 1, MS) * 1000; int k = sent++; deadline[k] = NOW + t * us; id[k] = request<req_t>(server, k).send(pt::microseconds{(long)t}); }
    void on_go(r::message_t<go_t> &) noexcept { ask(); work("client"); if (vp_choice("both", 2)) ask(); }
    void on_res(response_t &m) noexcept {
        int k = m.payload.req->payload.request_payload.v; 
        vp_check(++got[k] == 1, "one response for a request");
        if (m.payload.ee) { vp_check(m.payload.ee->ec == r::make_error_code(r::error_code_t::request_timeout), "the response tells about the timeout"); vp_check(NOW >= deadline[k], "a request times out only when its deadline is reached"); vp_log("timeout", k); }
        else { vp_check(m.payload.res.v == k && sv->replied[k] == 1, "the response is the server's"); vp_log("ok", k); }
    }
    bool busy() { return life.n_start && (sent == 0 || !got[0] || (sent > 1 && !got[1])); }
    void shutdown_start() noexcept override { vp::actor_t::shutdown_start(); server.reset(); }
};
struct ctx_t : rth::system_context_thread_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); }
};
r::intrusive_ptr_t<rth::supervisor_thread_t> SUP; int idle; bool stopping; client_t *CL; server_t *SV;
}
extern "C" void vp_timed_out(vp_u64 d) {
    if (!CL->busy() && !stopping) { stopping = true; SUP->shutdown(); NOW += 1; return; }
    vp_check(!stopping || ++idle < 3, "the loop makes progress");
    for (int k = 0; k < CL->sent; ++k) if (!CL->got[k]) vp_check(d <= CL->deadline[k], "the loop does not sleep past the deadline of a request");
    if (d > NOW) NOW = d;
    NOW += 1 + vp_range("late", 0, VP_THOROUGH ? 5 : 1) * 1000 * us;
}
int main() {
    vp::run_t run;
    {
        r::intrusive_ptr_t<ctx_t> ctx{new ctx_t()};
        SUP = ctx->create_supervisor<rth::supervisor_thread_t>().timeout(pt::milliseconds{200}).poll_duration(pt::milliseconds{0}).finish();
        auto s = SUP->create_actor<server_t>().timeout(pt::milliseconds{200}).finish();
        auto c = SUP->create_actor<client_t>().timeout(pt::milliseconds{200}).finish();
        c->server = s->get_address(); c->sv = SV = s.get(); CL = c.get();
        SUP->start();
        ctx->run();
        vp_check(vp::state_of(*SUP) == r::state_t::SHUT_DOWN && vp::state_of(*c) == r::state_t::SHUT_DOWN, "the loop ends when its supervisor is down");
        for (int k = 0; k < c->sent; ++k) vp_check(c->got[k] == 1, "every request gets its response");
        SUP.reset(); s.reset(); c.reset();
    }
    vp_reach("end");
    run.done();
}
