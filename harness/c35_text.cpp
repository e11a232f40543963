// C35: every message of the framework can be described, the text names its kind, its receiver and the actors involved
#include <vp_rotor.h>
#include <sstream>
using namespace vp;
#ifndef MODE
#define MODE 0
#endif
namespace m = r::message; namespace pl = r::payload;
static std::string hex(const void *p) { std::stringstream s; s << p; return s.str(); }
static std::string num(vp_u64 v) { std::stringstream s; s << v; return s.str(); }
static bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static bool starts(const std::string &s, const std::string &e) { return s.compare(0, e.size(), e) == 0; }
struct kind_t { const void *type; const char *name; };
static const kind_t *kinds() {
    static const kind_t KINDS[] = {
    {m::unsubscription_t::message_type, "unsubscription"}, {m::unsubscription_external_t::message_type, "unsubscription_external"}, {m::subscription_t::message_type, "subscription"}, {m::external_subscription_t::message_type, "external_subscription"},
    {m::commit_unsubscription_t::message_type, "commit_unsubscription"}, {m::handler_call_t::message_type, "handler_call"}, {m::init_request_t::message_type, "init_request"}, {m::init_response_t::message_type, "init_response"},
    {m::start_trigger_t::message_type, "start_trigger"}, {m::shutdown_trigger_t::message_type, "shutdown_trigger"}, {m::shutdown_request_t::message_type, "shutdown_request"}, {m::shutdown_response_t::message_type, "shutdown_response"},
    {m::create_actor_t::message_type, "create_actor"}, {m::spawn_actor_t::message_type, "spawn_actor"}, {m::registration_request_t::message_type, "registration_request"}, {m::registration_response_t::message_type, "registration_response"},
    {m::deregistration_notify_t::message_type, "deregistration_notify"}, {m::deregistration_service_t::message_type, "deregistration_service"}, {m::discovery_request_t::message_type, "discovery_request"}, {m::discovery_response_t::message_type, "discovery_response"},
    {m::discovery_promise_t::message_type, "discovery_promise"}, {m::discovery_future_t::message_type, "discovery_future"}, {m::discovery_cancel_t::message_type, "discovery_cancel"}, {m::link_request_t::message_type, "link_request"},
    {m::link_response_t::message_type, "link_response"}, {m::unlink_notify_t::message_type, "unlink_notify"}, {m::unlink_request_t::message_type, "unlink_request"}, {m::unlink_response_t::message_type, "unlink_response"}};
    return KINDS;
}
enum { NKINDS = 28 };
static r::system_context_t *CTX; static std::vector<bool> *SEEN;
// the text of any message
static std::string describe(r::message_base_t &msg) {
    auto refs = msg.use_count(); auto text = CTX->get_stringifier().stringify(msg);
    vp_check(msg.use_count() == refs, "describing a message doesn't change its ownership");
    vp_check(ends(text, " => " + hex(msg.address.get())), "the text names the receiver");
    int kind = -1; for (int i = 0; i < NKINDS; ++i) if (kinds()[i].type == msg.type_index) kind = i;
    if (kind >= 0) { if (SEEN) (*SEEN)[(size_t)kind] = true; std::string want = std::string("r::") + kinds()[kind].name; vp_check(starts(text, want) && text.size() > want.size() && text[want.size()] == ' ', "the text starts with the kind of the message"); }
    else vp_check(starts(text, "[?] "), "an unknown message is told so");
    return text;
}
struct note_t { int v; }; using note_m = r::message_t<note_t>;
struct kid_t : actor_t {
    using actor_t::actor_t; r::handler_ptr_t h;
    void on_note(note_m &) noexcept {}
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { h = s.subscribe_actor(&kid_t::on_note)->handler; }); }
};
#if MODE == 0
static void has(const std::string &t, const std::string &what, const char *msg) { vp_check(t.find(what) != std::string::npos, msg); }
template <typename P, typename... A> static auto request_of(const r::address_ptr_t &to, r::request_id_t id, const r::address_ptr_t &reply, const r::address_ptr_t &origin, A &&...args) {
    using M = typename r::request_traits_t<P>::request::message_t; return r::intrusive_ptr_t<M>(new M(to, id, reply, origin, P{std::forward<A>(args)...}));
}
int main() {
    run_t run;
    {
        tree_t t; t.boot(); CTX = t.ctx.get();
        auto a = t.root->create_actor<kid_t>().timeout(ms(9)).finish(); t.run();
        auto adr = [&](unsigned k) -> r::address_ptr_t { switch (k) { case 0: return {}; case 1: return a->get_address(); default: return t.root->get_address(); } };
        unsigned kind = vp_choice("kind", NKINDS + 1);
        auto dest = vp_choice("to", 2) ? a->get_address() : t.root->get_address();
        auto x = adr(vp_choice("who", 3)), org = adr(vp_choice("origin", 3));
        r::request_id_t id = vp_range("id", 0, 99); std::string name = "n"; name += (char)vp_range("letter", 'a', 'z');
        bool failed = vp_choice("error", 2); r::extended_error_ptr_t ee;
        if (failed) ee = r::make_error("second", r::make_error_code(r::shutdown_code_t::init_failed), r::make_error("first", r::make_error_code(r::error_code_t::cancelled)));
        r::message_ptr_t msg; std::string w[4]; unsigned n = 0; bool told = false; // whether the error is told
        auto reply = [&](auto &&req, auto &&...res) {
            using P = typename std::decay_t<decltype(req->payload)>::request_t; using Q = typename std::decay_t<decltype(req)>; using M = typename r::request_traits_t<P>::response::message_t;
            told = true;
            if (failed) { msg = r::request_traits_t<P>::make_error_response(dest, *req, ee); return; }
            msg = new M(dest, Q(req), std::forward<decltype(res)>(res)...);
        };
        auto point = [&](auto *type) { using M = std::remove_pointer_t<decltype(type)>; msg = new M(dest, r::subscription_point_t{a->h, x, a.get(), (r::owner_tag_t)vp_range("tag", 0, 3)}); w[n++] = hex(x.get()); w[n++] = "note_t"; };
        switch (kind) {
        case 0: point((m::unsubscription_t *)nullptr); break;
        case 1: point((m::unsubscription_external_t *)nullptr); break;
        case 2: point((m::subscription_t *)nullptr); break;
        case 3: point((m::external_subscription_t *)nullptr); break;
        case 4: point((m::commit_unsubscription_t *)nullptr); break;
        case 5: {
            r::message_ptr_t inner = vp_choice("inner", 2) ? r::message_ptr_t(new note_m(x, note_t{1})) : r::message_ptr_t(new m::start_trigger_t(x));
            w[n++] = "{" + CTX->get_stringifier().stringify(*inner) + "}"; msg = r::make_message<pl::handler_call_t>(dest, inner, a->h); w[n++] = hex(a.get()); break;
        }
        case 6: msg = request_of<pl::initialize_actor_t>(dest, id, a->get_address(), org); w[n++] = "#" + num(id); w[n++] = hex(dest.get()); break;
        case 7: reply(request_of<pl::initialize_actor_t>(dest, id, a->get_address(), org)); w[n++] = "#" + num(id); w[n++] = hex(org.get()); break;
        case 8: msg = new m::start_trigger_t(dest); w[n++] = hex(dest.get()); break;
        case 9: msg = new m::shutdown_trigger_t(dest, x, ee); told = true; w[n++] = hex(x.get()); break;
        case 10: msg = request_of<pl::shutdown_request_t>(dest, id, a->get_address(), org, ee); told = true; w[n++] = "# " + num(id); w[n++] = hex(org.get()); break;
        case 11: reply(request_of<pl::shutdown_request_t>(dest, id, a->get_address(), org, ee)); w[n++] = "# " + num(id); w[n++] = hex(org.get()); break;
        case 12: msg = new m::create_actor_t(dest, a, ms(5)); w[n++] = hex(dest.get()); w[n++] = "kid_t"; break;
        case 13: msg = new m::spawn_actor_t(dest, x); w[n++] = hex(dest.get()); w[n++] = hex(x.get()); break;
        case 14: msg = request_of<pl::registration_request_t>(dest, id, a->get_address(), org, name, x); w[n++] = "# " + num(id); w[n++] = "'" + name; w[n++] = hex(x.get()); break;
        case 15: reply(request_of<pl::registration_request_t>(dest, id, a->get_address(), org, name, x)); w[n++] = "# " + num(id); w[n++] = "'" + name + "'"; w[n++] = hex(x.get()); break;
        case 16: msg = new m::deregistration_notify_t(dest, x); w[n++] = hex(x.get()); break;
        case 17: msg = new m::deregistration_service_t(dest, name); w[n++] = "'" + name + "'"; break;
        case 18: msg = request_of<pl::discovery_request_t>(dest, id, a->get_address(), org, name); w[n++] = "'" + name + "'"; break;
        case 19: reply(request_of<pl::discovery_request_t>(dest, id, a->get_address(), org, name), x); w[n++] = "'" + name + "'"; if (!failed) w[n++] = hex(x.get()); break;
        case 20: msg = request_of<pl::discovery_promise_t>(dest, id, a->get_address(), org, name); w[n++] = "'" + name + "'"; break;
        case 21: reply(request_of<pl::discovery_promise_t>(dest, id, a->get_address(), org, name), x); w[n++] = "'" + name + "'"; if (!failed) w[n++] = hex(x.get()); break;
        case 22: msg = new m::discovery_cancel_t(dest, id, x); w[n++] = hex(x.get()); break;
        case 23: msg = request_of<pl::link_request_t>(dest, id, a->get_address(), org, true); w[n++] = hex(dest.get()); w[n++] = hex(org.get()); break;
        case 24: reply(request_of<pl::link_request_t>(dest, id, a->get_address(), org, false)); w[n++] = hex(org.get()); break;
        case 25: msg = new m::unlink_notify_t(dest, x); w[n++] = hex(x.get()); break;
        case 26: msg = request_of<pl::unlink_request_t>(dest, id, a->get_address(), org, x); w[n++] = hex(x.get()); break;
        case 27: reply(request_of<pl::unlink_request_t>(dest, id, a->get_address(), org, x), a->get_address()); w[n++] = hex(x.get()); break;
        default: msg = new note_m(dest, note_t{1}); w[n++] = "note_t"; break;
        }
        vp_check(kind == NKINDS || kinds()[kind].type == msg->type_index, "the harness makes the message it asks for");
        auto text = describe(*msg);
        for (unsigned i = 0; i < n; ++i) has(text, w[i], "the text names what is involved");
        if (failed && told) has(text, ee->message(), "the text tells the error with its causes");
        if (!failed) vp_check(text.find("fail") == std::string::npos, "no failure is told without a failure");
        // and as a part of the description of an error
        auto e2 = r::make_error("ctx", r::make_error_code(r::error_code_t::request_timeout), {}, msg); has(e2->message(&CTX->get_stringifier()), "[" + text + "]", "the error tells the request which failed");
        e2.reset(); msg.reset(); a->h.reset(); a.reset(); CTX = nullptr;
        t.down(); vp_reach("end");
    }
    run.done();
}
#else
// a history with all kinds of messages; each is described before it is handled, and those which were kept, afterwards
static std::vector<r::message_ptr_t> *KEPT; static vp_u64 AT; static unsigned N, END; static bool DONE; static r::actor_base_t *VICTIM[3];
static void strike() { DONE = true; VICTIM[END]->do_shutdown(r::make_error("why", r::make_error_code(r::error_code_t::cancelled))); }
static void look(r::message_base_t &x) { describe(x); KEPT->emplace_back(&x); if (!DONE && VICTIM[END] && AT == N++) strike(); }
static void look_q(sup_t &, r::message_base_t &x) { describe(x); }
struct cli_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t found; bool server = false, fails = false; const char *nm;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &x) { if (IS_SERVER) x.register_name("svc", get_address()); else { x.discover_name("svc", found, true).link(false); if (FAILS) x.discover_name("none", other); } });
    }
    r::address_ptr_t other; static inline bool IS_SERVER, FAILS; void tell(const r::address_ptr_t &a) { send<note_t>(a, 1); }
};
struct mon_t : actor_t {
    using actor_t::actor_t; int n = 0; static inline r::address_ptr_t SRC;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); if (SRC) p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&mon_t::on_note, SRC); }); }
    void on_note(note_m &) noexcept { ++n; }
};
int main() {
    run_t run;
    {
        std::vector<bool> seen((size_t)NKINDS); SEEN = &seen; std::vector<r::message_ptr_t> kept; KEPT = &kept; N = 0; DONE = false; VICTIM[0] = VICTIM[1] = VICTIM[2] = nullptr;
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t()); CTX = ctx.get(); static const char other = 0;
        BEFORE_MESSAGE = look; ON_ENQUEUE = look_q;
        bool far_away = vp_choice("far", 2), fails = vp_choice("unknown service", 2); END = vp_choice("end", 3); AT = vp_range("at", 0, !VP_THOROUGH && fails ? 0 : 255);
        auto root = ctx->create_supervisor<sup_t>().timeout(ms(50)).policy(r::supervisor_policy_t::shutdown_failed).create_registry().name("root").finish();
        auto p = far_away ? root->create_actor<sup_t>().timeout(ms(40)).policy(r::supervisor_policy_t::shutdown_failed).locality(&other).name("p").finish() : root->create_actor<sup_t>().timeout(ms(40)).policy(r::supervisor_policy_t::shutdown_failed).name("p").finish();
        auto run_all = [&] { far_away ? drain({root.get(), p.get()}) : drain(root.get()); };
        run_all();
        cli_t::IS_SERVER = false; cli_t::FAILS = fails; auto c = p->create_actor<cli_t>().timeout(ms(30)).finish(); VICTIM[1] = c.get(); VICTIM[2] = p.get(); if (END == 0) run_all();
        cli_t::IS_SERVER = true; auto s = root->create_actor<cli_t>().timeout(ms(30)).finish(); VICTIM[0] = s.get(); run_all();
        auto factory = [&](r::supervisor_t &sup, const r::address_ptr_t &sp) -> r::actor_ptr_t { return sup.create_actor<mon_t>().timeout(ms(20)).spawner_address(sp).finish(); };
        mon_t::SRC = s->get_address(); r::intrusive_ptr_t<mon_t> mon; if ((int)state_of(*p) < (int)r::state_t::SHUTTING_DOWN) mon = p->create_actor<mon_t>().timeout(ms(30)).finish(); run_all(); if (state_of(*s) == r::state_t::OPERATIONAL) s->tell(mon_t::SRC);
        if ((int)state_of(*p) < (int)r::state_t::SHUTTING_DOWN) { auto b = p->spawn(factory); std::move(b).restart_policy(r::restart_policy_t::never).spawn(); }
        run_all();
        if (!DONE) { vp_assume(AT >= N); AT = ~0ul; strike(); }
        run_all();
        root->do_shutdown(); run_all(); vp_check(state_of(*root) == r::state_t::SHUT_DOWN, "the tree shuts down");
        BEFORE_MESSAGE = nullptr; ON_ENQUEUE = nullptr;
        for (auto &x : kept) describe(*x);
        kept.clear(); std::vector<r::message_ptr_t>().swap(kept); c.reset(); s.reset(); mon.reset(); p.reset();
        for (auto *v : {&mon_t::SRC}) v->reset();
        for (int i = 0; i < NKINDS; ++i) if (seen[(size_t)i]) vp_reach(kinds()[i].name);
        vp_check(W->fatal == 0, "no fatal error is reported"); mon_t::SRC.reset(); SEEN = nullptr; KEPT = nullptr; CTX = nullptr;
        vp_reach("end");
    }
    run.done();
}
#endif
