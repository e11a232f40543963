// C25: a message for another loop is handed over once and handled there only
#include <vp_rotor.h>
using namespace vp;
struct note_t { int id; vp_u64 value; int hops; };
struct res_t { int id; vp_u64 value; };
struct req_t { using response_t = res_t; int id; vp_u64 value; };
using note_m = r::message_t<note_t>; using req_m = r::request_traits_t<req_t>::request::message_t; using res_m = r::request_traits_t<req_t>::response::message_t;
constexpr int OPS = VP_THOROUGH ? 4 : 3, ACTORS = 3, IDS = OPS;
static sup_t *CUR, *RUN[3]; // the loop which runs now; all of them
struct sent_t { int from, to, relay; vp_u64 value; int handed = 0, handed_back = 0, handed_relay = 0, got = 0, relayed = 0, answered = 0; };
static sent_t S[IDS]; static int N;
struct peer_t;
static r::intrusive_ptr_t<peer_t> A[ACTORS];
static sup_t *leader(r::supervisor_t &s) { return static_cast<sup_t *>(s.access<to::locality_leader>()); }
struct peer_t : actor_t {
    using actor_t::actor_t; int me = 0; int last[ACTORS] = {-1, -1, -1}, last_back[ACTORS] = {-1, -1, -1};
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&peer_t::on_note); s.subscribe_actor(&peer_t::on_req); s.subscribe_actor(&peer_t::on_res); }); }
    void here() { vp_check(CUR == leader(*supervisor), "a message is handled in the context of the loop of its recipient only"); }
    void come(int id, vp_u64 v) {
        here(); auto &s = S[id]; vp_check(s.to == me && s.value == v, "a message arrives unchanged at its recipient"); ++s.got;
        vp_check(last[s.from] < id, "messages of a sender are handled in their order"); last[s.from] = id; vp_log("got", (vp_u64)id);
    }
    void on_note(note_m &m) noexcept {
        auto &p = m.payload; auto &s = S[p.id];
        if (p.hops) { here(); vp_check(s.relay == me && s.value == p.value, "a message arrives unchanged at its recipient"); ++s.relayed; return; }
        come(p.id, p.value);
        if (s.relay >= 0) send<note_t>(A[s.relay]->get_address(), note_t{p.id, p.value, 1});
    }
    void on_req(req_m &m) noexcept { auto &p = m.payload.request_payload; come(p.id, p.value); reply_to(m, p.id, p.value); }
    void on_res(res_m &m) noexcept { here(); vp_check(!m.payload.ee, "the response has come in time"); auto &p = m.payload.res; auto &s = S[p.id]; vp_check(s.from == me && s.value == p.value, "a message arrives unchanged at its recipient"); ++s.answered; vp_check(last_back[s.to] < p.id, "responses of a sender are handled in their order"); last_back[s.to] = p.id; }
};
static void on_enqueue(sup_t &sup, r::message_base_t &m) {
    vp_check(leader(m.address->supervisor) == leader(sup), "a message is handed over to the loop which owns its address");
    vp_check(CUR != leader(sup), "a message is not put into the inbound queue of the loop which runs");
    if (m.type_index == note_m::message_type) { auto &p = static_cast<note_m &>(m).payload; ++(p.hops ? S[p.id].handed_relay : S[p.id].handed); }
    else if (m.type_index == req_m::message_type) ++S[static_cast<req_m &>(m).payload.request_payload.id].handed;
    else if (m.type_index == res_m::message_type) ++S[static_cast<res_m &>(m).payload.res.id].handed_back;
}
static void go(sup_t *s) { CUR = s; s->do_process(); CUR = nullptr; }
static bool busy(sup_t *s) { return s && !s->leader_queue().empty(); }
int main() {
    run_t run;
    {
        N = 0; CUR = nullptr; for (auto &s : S) s = sent_t{};
        bool requests = vp_choice("requests", 2); unsigned where = vp_choice("third", 3); // the third actor is on its own loop, on a child supervisor of the second or of the first loop
        {
            tree_t t(where == 2, true); sup_ptr third = where == 2 ? t.near : nullptr; static const char lc = 0;
            t.boot();
            if (where == 0) third = t.root->create_actor<sup_t>().timeout(ms(10)).locality(&lc).name("third").finish();
            if (where == 1) third = t.far->create_actor<sup_t>().timeout(ms(10)).locality(t.far->loc).name("below").finish();
            RUN[0] = t.root.get(); RUN[1] = t.far.get(); RUN[2] = where == 0 ? third.get() : nullptr;
            auto all = [&] { for (int i = 0; i < 64; ++i) { bool any = false; for (auto *s : RUN) if (busy(s)) { any = true; go(s); } if (!any) return; } vp_fail("the queues never become empty"); };
            sup_t *home[ACTORS] = {t.root.get(), t.far.get(), third.get()};
            for (int i = 0; i < ACTORS; ++i) { A[i] = home[i]->create_actor<peer_t>().timeout(ms(5)).finish(); A[i]->me = i; }
            all(); for (auto &a : A) vp_check(state_of(*a) == r::state_t::OPERATIONAL, "the tree starts");
            ON_ENQUEUE = &on_enqueue;
            for (int step = 0; step < OPS; ++step) {
                int id = N++; auto &s = S[id]; s.value = vp_sym("value", 64);
                if (step == 2 && !VP_THOROUGH) { unsigned again = vp_choice("again", 3); auto &o = S[again == 2]; s.from = again == 1 ? o.to : o.from; s.to = again == 1 ? o.from : o.to; }
                else { unsigned pair = vp_choice("pair", 6); s.from = (int)(pair / 2); s.to = (s.from + 1 + (int)(pair % 2)) % ACTORS; }
                s.relay = requests || step ? -1 : (int)vp_choice("relay", 2) ? 3 - s.from - s.to : -1;
                // a handler of the sender's loop sends it
                if (requests) A[s.from]->request<req_t>(A[s.to]->get_address(), id, s.value).send(ms(5)); else A[s.from]->send<note_t>(A[s.to]->get_address(), note_t{id, s.value, 0});
                unsigned runs = step + 1 == OPS ? 0 : vp_choice("runs", where == 0 ? 4 : 3);
                if (runs && busy(RUN[runs - 1])) go(RUN[runs - 1]);
            }
            for (int i = 0; i < 64; ++i) { sup_t *c[3]; unsigned n = 0; for (auto *s : RUN) if (busy(s)) c[n++] = s; if (!n) break; go(c[n > 1 ? vp_choice("loop", n) : 0]); }
            for (auto *s : RUN) vp_check(!busy(s), "the queues become empty");
            for (int i = 0; i < N; ++i) {
                auto &s = S[i]; auto crosses = [&](int x, int y) { return leader(*home[x]) != leader(*home[y]) ? 1 : 0; };
                vp_check(s.got == 1, "a message is handled once"); vp_check(s.handed == crosses(s.from, s.to), "a message is handed over once if its recipient is on another loop");
                if (requests) { vp_check(s.answered == 1, "a response is handled once"); vp_check(s.handed_back == crosses(s.to, s.from), "a response is handed over once if its recipient is on another loop"); }
                if (s.relay >= 0) { vp_check(s.relayed == 1, "a message is handled once"); vp_check(s.handed_relay == crosses(s.to, s.relay), "a message is handed over once if its recipient is on another loop"); vp_reach("relayed"); }
                if (s.handed) vp_reach("handed over"); else vp_reach("local");
            }
            vp_check(timers() == 0, "the requests are answered");
            ON_ENQUEUE = nullptr; vp_reach("end");
            for (auto &a : A) a.reset();
            t.root->do_shutdown(); all(); vp_check(state_of(*t.root) == r::state_t::SHUT_DOWN && W->fatal == 0, "the tree shuts down");
        }
    }
    run.done();
}
