// C13, C14: links between servers and clients
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 13
#endif
// A chain: client C is linked to server B, which may itself be a client of the server S.
struct link_t;
static std::vector<link_t *> *LINKS;
struct party_t;
struct link_t { party_t *client; party_t *server; bool op_only; bool asked, confirmed, failed, gone; };
static bool SLOW_TIMEOUT; // somebody's timeout expired
struct party_t : actor_t {
    using actor_t::actor_t; link_t *link = nullptr; r::address_ptr_t target;
    bool slow_init = false, slow_down = false, keep = false, defer = false, holding = false; r::intrusive_ptr_t<r::message::unlink_request_t> deferred;
    r::plugin::link_client_plugin_t *lc = nullptr; r::extended_error_ptr_t link_error;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &l) {
            lc = &l;
            if (target) {
                link->asked = true;
                l.link(target, link->op_only, [this](const r::extended_error_ptr_t &ec) {
                    vp_check(!link->confirmed && !link->failed, "a link request is answered once");
                    if (ec) { link->failed = true; link_error = ec; auto c = ec->root()->ec; vp_check(c == r::make_error_code(r::error_code_t::actor_not_linkable) || c == r::make_error_code(r::error_code_t::request_timeout), "a failed link has a reason"); }
                    else {
                        link->confirmed = true;
                        vp_check(link->server && (int)state_of(*link->server) >= (int)r::state_t::INITIALIZING, "a link is confirmed by a live server");
                        if (link->op_only) vp_check(link->server->life.n_start == 1, "an operational-only link is confirmed after the server became operational");
                        vp_check(link->server->life.n_sfinish == 0, "a link is confirmed by a live server");
                    }
                });
                if (defer) l.on_unlink([this](auto &msg) { deferred = &msg; return true; });
            }
        }, r::plugin::config_phase_t::INITIALIZING);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow_init && !holding) { holding = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_finish() noexcept override { if (target) vp_check(link->confirmed, "a client is initialized only when its link was confirmed"); actor_t::init_finish(); }
    void on_start() noexcept override { actor_t::on_start(); }
    bool on_unlink(const r::address_ptr_t &a) noexcept override { vp_check(a == target, "the client is told which server asks to unlink"); link->gone = true; return !keep; }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (slow_down) { holding = true; resources->acquire(); } }
    void shutdown_finish() noexcept override {
        for (auto *l : *LINKS) if (l->server == this && l->confirmed && !W->fatal && !SLOW_TIMEOUT) vp_check(l->gone || l->client->life.n_sstart, "a server finishes its shutdown only after its clients unlinked");
        actor_t::shutdown_finish();
    }
    void let_go() { holding = false; resources->release(); }
    void answer() { auto m = deferred; deferred.reset(); lc->forget_link(*m); }
};
using party_ptr = r::intrusive_ptr_t<party_t>;
static party_t *S, *B, *C; static sup_t *ROOT; static int DOWN; static bool DOWN_DONE;
static void down() {
    if (DOWN_DONE) return;
    DOWN_DONE = true;
    switch (DOWN) { case 0: if (S) S->do_shutdown(); break; case 1: C->do_shutdown(); break; case 2: ROOT->do_shutdown(); break; case 3: if (B) B->do_shutdown(); break; case 4: break; }
}
int main() {
    run_t run;
    {
        ON_FATAL = [] { vp_check(SLOW_TIMEOUT, "only what takes too long is fatal"); };
        std::vector<link_t *> links; LINKS = &links; link_t l1{}, l2{}; DOWN_DONE = false; SLOW_TIMEOUT = false; S = B = C = nullptr;
        bool chain = MODE == 13 && vp_choice("chain", 2);
        unsigned where = vp_choice("where", chain && !VP_THOROUGH ? 2 : 3); // client is created before the server on the same loop, after it, lives on another loop
        unsigned srv = MODE == 14 ? vp_choice("server", 4) : vp_choice("server", 2); // fine, slow initialization, absent, terminated before
        unsigned cl = MODE == 13 ? vp_choice("client", chain && !VP_THOROUGH ? 3 : 5) : 0; // fine, slow shutdown, defers unlink, stays alive after unlink, slow initialization
        DOWN = MODE == 13 ? (int)vp_choice("down", chain ? 4 : 3) : (int)vp_choice("down", VP_THOROUGH ? 5 : 3) + (VP_THOROUGH ? 0 : 0);
        if (MODE == 14 && !VP_THOROUGH && DOWN == 1) DOWN = 4;
        bool op = vp_choice("op", chain && !VP_THOROUGH ? 1 : 2);
        {
            tree_t t(true, where == 2); ROOT = t.root.get();
            party_ptr s, b, c; auto *cs = where == 2 ? t.far.get() : t.root.get();
            auto mk = [&](sup_t *sp, int tm) { return sp->create_actor<party_t>().timeout(ms(tm)).finish(); };
            r::address_ptr_t nobody;
            if (srv == 3) { s = mk(t.near.get(), 6); t.run(); s->do_shutdown(); t.run(); if (state_of(*s) != r::state_t::SHUT_DOWN) vp_fail("the server is terminated"); }
            auto server = [&] { if (srv == 2) { nobody = t.root->make_address(); return; } if (srv == 3) { nobody = s->get_address(); return; } s = mk(t.near.get(), 6); s->slow_init = srv == 1; };
            auto wire = [&](party_t *client, party_t *srvp, const r::address_ptr_t &a, link_t &l) { client->target = a; client->link = &l; l.client = client; l.server = srvp; l.op_only = op; links.push_back(&l); };
            if (where == 0) { c = mk(cs, 5); if (chain) b = mk(t.root.get(), 5); server(); } else { server(); if (chain) b = mk(t.near.get(), 5); c = mk(cs, 5); }
            S = s.get(); C = c.get(); B = b.get();
            auto sa = s && srv < 2 ? s->get_address() : nobody;
            if (chain) { wire(b.get(), S, sa, l1); wire(C, B, b->get_address(), l2); } else wire(C, srv < 2 || srv == 3 ? S : nullptr, sa, l1);
            C->slow_down = cl == 1; C->defer = cl == 2; C->keep = cl == 3; C->slow_init = cl == 4;
            inject_t inj("at", 255, down); if (DOWN == 4) { inj.fired = true; DOWN_DONE = true; }
            party_t *all[3] = {S, B, C};
            for (int i = 0; i < 16; ++i) {
                t.run();
                party_t *h[6]; bool answer[6]; unsigned n = 0;
                for (auto *p : all) if (p && p->holding) { answer[n] = false; h[n++] = p; }
                for (auto *p : all) if (p && p->deferred) { answer[n] = true; h[n++] = p; }
                bool pending_link = false; for (auto *l : links) if (l->asked && !l->confirmed && !l->failed && l->client->life.n_sstart == 0) pending_link = true;
                if ((n || pending_link) && timers()) { // something is in progress: it goes on, or time passes
                    unsigned what = n && SLOW_TIMEOUT && !VP_THOROUGH ? 0 : vp_choice("next", n + 1);
                    if (what < n) { if (answer[what]) h[what]->answer(); else h[what]->let_go(); }
                    else { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; SLOW_TIMEOUT = true; fire_raw(m); }
                    continue;
                }
                if (n) { if (answer[0]) h[0]->answer(); else h[0]->let_go(); continue; }
                if (!inj.fired) { inj.late(); continue; }
                break;
            }
            BEFORE_MESSAGE = nullptr;
            for (auto *p : all) if (p) vp_debug("state", (vp_u64)state_of(*p)), vp_debug("sroot", (vp_u64)state_of(*t.root)), vp_check((int)state_of(*p) >= (int)r::state_t::SHUT_DOWN || state_of(*p) == r::state_t::OPERATIONAL, "everybody settles");
            for (auto *l : links) {
                auto cst = state_of(*l->client); auto sst = l->server ? state_of(*l->server) : r::state_t::SHUT_DOWN;
                if (cst == r::state_t::OPERATIONAL) vp_check(l->confirmed, "a client operates only with a confirmed link");
                if (l->failed) {
                    vp_reach("link failed");
                    vp_check(cst == r::state_t::SHUT_DOWN, "a client which failed to link shuts down");
                    if (!DOWN_DONE || DOWN == 4) vp_check(l->client->shutdown_reason->root()->ec == l->client->link_error->root()->ec, "the linking error is the reason of the shutdown");
                }
                if (sst == r::state_t::SHUT_DOWN && l->confirmed) { vp_reach("unlinked"); vp_check(cst == r::state_t::SHUT_DOWN || l->client->keep, "a client whose server asks to unlink shuts down"); }
                if (l->confirmed && l->client->keep && cst == r::state_t::OPERATIONAL && sst == r::state_t::SHUT_DOWN) vp_reach("stays");
            }
            if (MODE == 14 && DOWN == 4) { if (srv == 0) vp_check(l1.confirmed, "linking to a live server succeeds"); if (srv >= 2) vp_check(l1.failed || (int)state_of(*C) == (int)r::state_t::SHUT_DOWN, "linking to an absent server fails"); }
            vp_log("out", (vp_u64)state_of(*C) * 4 + l1.confirmed * 2 + l1.failed);
            t.down();
            vp_reach("end");
            for (auto *p : all) if (p) p->link_error.reset();
        }
        LINKS = nullptr; S = B = C = nullptr;
    }
    run.done();
}
