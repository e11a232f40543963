// C33: the chain of reasons leads from what is reported to the original cause, unaltered; its text names every element
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 1
#endif
struct note_t { int v; };
using note_m = r::message_t<note_t>;
static std::error_code code_of(unsigned w) {
    switch (w) {
    case 0: return r::make_error_code(r::shutdown_code_t::normal);
    case 1: return r::make_error_code(r::error_code_t::discovery_failed);
    case 2: return r::make_error_code(r::shutdown_code_t::child_down);
    default: return std::make_error_code(std::errc::timed_out);
    }
}
// the chain is finite, and its text tells context and code of every element, in order
static void describes(const r::extended_error_ptr_t &e) {
    std::string want; unsigned n = 0; const r::extended_error_t *seen[16], *last = nullptr;
    for (auto *i = e.get(); i; i = i->next.get()) {
        for (unsigned k = 0; k < n; ++k) vp_check(seen[k] != i, "the chain has no cycles");
        vp_check(n < 16, "the chain is as long as the number of failures"); seen[n++] = i; last = i;
    }
    vp_check(e->root().get() == last, "root() is the last element of the chain");
    auto text = e->message(); size_t pos = 0;
    for (unsigned k = 0; k < n; ++k) {
        auto p = text.find(seen[k]->context, pos); vp_check(p != std::string::npos, "the text names the context of every element, in order"); pos = p + seen[k]->context.size();
        auto m = seen[k]->ec.message(); p = text.find(m, pos); vp_check(p != std::string::npos && !m.empty(), "the text names the error of every element, in order"); pos = p + m.size();
    }
    vp_check(pos == text.size() || text[pos] == ' ', "the text ends with the root cause");
}
#if MODE == 0
struct cat_t : std::error_category {
    const char *name() const noexcept override { return "own"; }
    std::string message(int v) const override { std::string s = "E"; s += (char)('A' + (v & 15)); s += (char)('A' + ((v >> 4) & 15)); return s; }
};
static const cat_t CAT;
struct str_t : r::message_stringifier_t {
    void stringify_to(std::ostream &o, const r::message_base_t &) const override { o << "REQ"; }
};
int main() {
    run_t run;
    {
        unsigned n = 1 + vp_choice("length", VP_THOROUGH ? 5 : 4);
        r::message_ptr_t req = new note_m(r::address_ptr_t{}, note_t{1});
        str_t str; r::extended_error_ptr_t all[5], e; std::string ctx[5]; std::error_code ec[5]; bool with[5];
        for (unsigned i = 0; i < n; ++i) {
            ctx[i] = "c"; ctx[i] += (char)vp_range("letter", 'a', 'z'); ctx[i] += (char)('0' + i);
            if (i < 2 && vp_choice("category", 2)) ec[i] = code_of(vp_choice("code", 4)); else ec[i] = std::error_code((int)vp_sym("value", 32), CAT); with[i] = vp_choice("request", i < 2 ? 2 : 1);
            all[i] = e = r::make_error(ctx[i], ec[i], e, with[i] ? req : r::message_ptr_t{});
        }
        // the elements are what was given, in the order of their creation
        auto *it = e.get();
        for (unsigned i = n; i-- > 0; it = it->next.get()) vp_check(it == all[i].get() && it->context == ctx[i] && it->ec == ec[i] && it->request.get() == (with[i] ? req.get() : nullptr), "elements of the chain are kept unaltered");
        vp_check(it == nullptr, "the chain ends with its first cause");
        for (unsigned i = 0; i < n; ++i) { vp_check(all[i]->root() == all[0], "each part of the chain has the same root"); describes(all[i]); }
        unsigned via = vp_choice("stringifier", 2);
        auto text = e->message(via ? &str : nullptr);
        if (via && with[n - 1]) vp_check(text.find("REQ") != std::string::npos && text.find("REQ") < (n > 1 ? text.find(ctx[n - 2]) : std::string::npos), "the text tells the request which failed");
        if (!via) vp_check(text.find("REQ") == std::string::npos, "without the stringifier the request isn't told");
        vp_check(req->use_count() == 1 + (unsigned)std::count(with, with + n, true), "the error holds its request");
        // holders drop the elements in any order, the root survives as long as somebody needs it
        auto root = e->root(); e.reset(); for (auto &x : all) x.reset();
        vp_check(root->use_count() == 1 && root->context == ctx[0] && root->ec == ec[0] && !root->next, "the root survives the rest of the chain");
        vp_reach("end");
    }
    run.done();
}
#else
// 0 operational child fails, 1 fails in init_start, 2 when configured, 3 init timeout, 4 link refused (timeout), 5 unknown service, 6 name already registered, 7 its supervisor is shut down, 8 a spawned child fails, 9 server isn't linkable
struct kid_t;
static r::extended_error_ptr_t *WHY; static unsigned HOW; static r::address_ptr_t *SERVER; static kid_t *A; static bool IS_BAD, IS_SERVER; static std::vector<r::extended_error_ptr_t> *REPORTED;
struct kid_t : actor_t {
    using actor_t::actor_t; bool bad = IS_BAD, asked = false, server = IS_SERVER, stuck = false; int holding = 0;
    void ask() { if (!asked) { asked = true; do_shutdown(*WHY); } }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &m) { m.set_identity(bad_name(), false); });
        if (!bad) { if (server) p.with_casted<r::plugin::registry_plugin_t>([&](auto &x) { x.register_name("taken", get_address()); }); return; }
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { if (state == r::state_t::INITIALIZING && HOW == 2) ask(); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (HOW == 3 && !holding) { ++holding; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &x) { if (HOW == 4 || HOW == 9) x.link(*SERVER, HOW == 4); });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &x) {
            if (HOW == 5) x.discover_name("nobody", found); if (HOW == 6) x.register_name("taken", get_address());
        });
    }
    const char *bad_name() { return bad ? "bad" : server ? "server" : "good"; }
    r::address_ptr_t found;
    void init_start() noexcept override { actor_t::init_start(); if (bad && HOW == 1) ask(); }
    void shutdown_start() noexcept override { actor_t::shutdown_start(); if (holding && !stuck) { --holding; resources->release(); } }
};
using kid_ptr = r::intrusive_ptr_t<kid_t>;
struct psup_t : sup_t {
    using sup_t::sup_t;
    void on_child_init(r::actor_base_t *a, const error_ptr &ec) noexcept override { sup_t::on_child_init(a, ec); if (ec) REPORTED->push_back(ec); }
};
static void strike() {
    if (HOW == 0) A->ask();
    if (HOW == 7) static_cast<r::actor_base_t &>(*A->supervisor).do_shutdown(*WHY);
    if (HOW == 8 && A && state_of(*A) == r::state_t::OPERATIONAL) A->ask();
}
int main() {
    run_t run;
    {
        std::vector<r::extended_error_ptr_t> reported; REPORTED = &reported; ON_FATAL = nullptr;
        r::extended_error_ptr_t first = r::make_error("origin", code_of(3)), why = first; WHY = &why;
        unsigned len = vp_choice("length", VP_THOROUGH ? 3 : 2); for (unsigned i = 0; i < len; ++i) why = r::make_error("user", code_of(1), why);
        HOW = vp_choice("how", 10); A = nullptr;
        r::address_ptr_t server; SERVER = &server;
        auto pol = HOW == 0 || HOW == 7 || HOW == 8 || vp_choice("policy", 2) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        unsigned ask = HOW == 7 ? 0 : vp_choice("escalate", 3); // of the child: 0 nothing, 1 a failure is escalated, 2 autoshutdown
        unsigned ask2 = vp_choice("escalate2", VP_THOROUGH ? 3 : 2); // of its supervisor
        unsigned deep = vp_choice("where", 3); // its supervisor: 0 below the root, 1 the same on another loop, 2 below another supervisor
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t()); static const char other = 0;
        auto root = ctx->create_supervisor<psup_t>().timeout(ms(400)).policy(r::supervisor_policy_t::shutdown_failed).create_registry().name("root").finish();
        sup_ptr mid; if (deep == 2) mid = root->create_actor<psup_t>().timeout(ms(300)).policy(pol).name("mid").finish();
        auto run_all = [&](r::supervisor_t *p) { static_cast<sup_t *>(p)->loc == &other ? drain({root.get(), static_cast<sup_t *>(p)}) : drain(root.get()); };
        bool boot = HOW == 0 || HOW == 7 || HOW == 8 ? true : vp_choice("boot", 2);
        auto make_p = [&](auto b) { auto c = std::move(b).timeout(ms(200)).policy(pol).name("p"); if (ask2 == 1) return std::move(c).escalate_failure().finish(); if (ask2 == 2) return std::move(c).autoshutdown_supervisor().finish(); return std::move(c).finish(); };
        auto p = mid ? make_p(mid->create_actor<psup_t>()) : deep == 1 ? make_p(root->create_actor<psup_t>().locality(&other)) : make_p(root->create_actor<psup_t>());
        if (boot) run_all(p.get());
        IS_BAD = false; IS_SERVER = HOW == 6; auto srv = p->create_actor<kid_t>().timeout(ms(100)).finish(); IS_SERVER = false; server = HOW == 4 ? p->make_address() : srv->get_address();
        auto good = p->create_actor<kid_t>().timeout(ms(100)).finish();
        kid_ptr bad;
        auto make_bad = [&](auto b) { if (ask == 1) return std::move(b).escalate_failure().finish(); if (ask == 2) return std::move(b).autoshutdown_supervisor().finish(); return std::move(b).finish(); };
        if (HOW == 8) {
            auto factory = [&](r::supervisor_t &s, const r::address_ptr_t &sp) -> r::actor_ptr_t { IS_BAD = true; bad = s.create_actor<kid_t>().timeout(ms(90)).spawner_address(sp).finish(); A = bad.get(); return bad; };
            auto b = p->spawn(factory); std::move(b).restart_policy(r::restart_policy_t::normal_only).max_attempts(3).escalate_failure().spawn();
        } else {
            if (HOW == 4 || HOW == 6 || HOW == 9) run_all(p.get());
            if (HOW == 9) { srv->stuck = true; srv->holding = 1; srv->res()->acquire(); srv->do_shutdown(); if (vp_choice("refusal", 2)) run_all(p.get()); }
            IS_BAD = true; bad = make_bad(p->create_actor<kid_t>().timeout(ms(90))); A = bad.get();
        }
        (void)0;
        inject_t inj("at", HOW == 7 || VP_THOROUGH ? 255 : 40, strike); if (HOW != 0 && HOW != 7) { inj.fired = true; BEFORE_MESSAGE = nullptr; }
        run_all(p.get());
        if (HOW == 8) { strike(); run_all(p.get()); }
        if (!inj.fired) { inj.late(); run_all(p.get()); }
        if ((HOW == 3 || HOW == 4 || HOW == 9) && (int)state_of(*bad) < (int)r::state_t::SHUTTING_DOWN) for (int i = 0; i < 4 && (int)state_of(*bad) < (int)r::state_t::SHUTTING_DOWN && timers(); ++i) { size_t m = 0; for (size_t j = 1; j < timers(); ++j) if ((*TIMERS)[j].interval < (*TIMERS)[m].interval) m = j; fire_raw(m); run_all(p.get()); }
        BEFORE_MESSAGE = nullptr;
        if (srv->holding) { srv->holding = 0; srv->res()->release(); run_all(p.get()); }
        // the original cause
        auto is_cause = [&](const r::extended_error_ptr_t &e) {
            auto x = e->root();
            switch (HOW) {
            case 3: case 4: return x->ec == r::make_error_code(r::error_code_t::request_timeout);
            case 5: return x->ec == r::make_error_code(r::error_code_t::unknown_service);
            case 6: return x->ec == r::make_error_code(r::error_code_t::already_registered);
            case 9: return x->ec == r::make_error_code(r::error_code_t::actor_not_linkable) || x->ec == r::make_error_code(r::error_code_t::request_timeout);
            default: return x == first;
            }
        };
        auto is_known = [&](r::actor_base_t &x) {
            auto &e = x.get_shutdown_reason(); if ((int)state_of(x) < (int)r::state_t::SHUTTING_DOWN) return true;
            vp_check((bool)e, "whoever shuts down has a reason"); vp_check(is_cause(e), "the reason of the shutdown leads to the original cause"); describes(e);
            return false;
        };
        if (bad) { vp_check(!is_known(*bad), "the failed actor shuts down"); vp_log("depth", [&] { vp_u64 n = 0; for (auto *i = bad->get_shutdown_reason().get(); i; i = i->next.get()) ++n; return n; }()); }
        bool p_up = is_known(*p), good_up = is_known(*good); vp_check(good_up == p_up, "the sibling follows its supervisor"); if (mid) is_known(*mid); bool root_up = is_known(*root);
        if (HOW != 9) is_known(*srv);
        for (auto &e : reported) { vp_check(is_cause(e), "the failure reported to the supervisor leads to the original cause"); describes(e); }
        if (!p_up) vp_reach("supervisor down"); else vp_reach("supervisor up"); if (!root_up) vp_reach("root down");
        // and those who survived get the reason of the shutdown which follows
        r::extended_error_ptr_t last = r::make_error("final", code_of(1));
        if (root_up) { root->do_shutdown(last); run_all(p.get()); }
        for (r::actor_base_t *x : {(r::actor_base_t *)(p_up ? p.get() : nullptr), (r::actor_base_t *)(good_up ? good.get() : nullptr), (r::actor_base_t *)(root_up ? root.get() : nullptr)}) if (x) {
            auto e = x->get_shutdown_reason(); vp_check(e && e->root() == last, "the reason of the final shutdown is told"); describes(e);
        }
        vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down"); vp_check(W->fatal == 0, "no fatal error is reported");
        vp_reach("end");
        inject_t::me = nullptr;
        A = nullptr; WHY = nullptr; SERVER = nullptr; REPORTED = nullptr;
    }
    run.done();
}
#endif
