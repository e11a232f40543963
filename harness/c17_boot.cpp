// C17: a tree which is put together before it starts: the services find each other without anybody waiting for a timeout
#include <vp_rotor.h>
using namespace vp;
static int UP; static bool SYNC;
struct service_t : actor_t {
    using actor_t::actor_t;
    const char *name = nullptr, *lookup = nullptr; r::address_ptr_t found; bool delayed = false, link = false, op_only = false, slow = false, held = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (name) p.register_name(name, address);
            if (lookup) { auto &t = p.discover_name(lookup, found, delayed); if (link) t.link(op_only); }
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (slow && !held) { held = true; resources->acquire(); } }, r::plugin::config_phase_t::INITIALIZING);
    }
    void init_finish() noexcept override { if (lookup) vp_check((bool)found, "a client is initialized only after its lookup is resolved"); actor_t::init_finish(); }
    void on_start() noexcept override { ++UP; actor_t::on_start(); }
    void let_go() { held = false; resources->release(); }
};
using service_ptr = r::intrusive_ptr_t<service_t>;
int main() {
    run_t run;
    {
        UP = 0; static const char other = 0;
        bool sync_root = vp_choice("sync root", 2), sync_sub = vp_choice("sync sub", 2);
        unsigned own = vp_choice("registry", 2);             // the registry of the root, or one of the supervisor below (too)
        unsigned where = vp_choice("where", 3);              // server and client below one supervisor, or the server / the client below the root
        bool far = vp_choice("far", 2);                      // the supervisor has its own loop
        bool first = vp_choice("client first", 2), delayed = first ? true : (bool)vp_choice("delayed", 2);
        unsigned lk = vp_choice("link", 3);                  // the client: lookup only, links to the server, links when it is operational
        bool slow = vp_choice("slow", 2);                    // the server needs some time to initialize (after it has registered)
        // a link to an operational server can not be waited for by those it waits for
        if (lk == 2 && (sync_root || sync_sub)) vp_end();
        if (!VP_THOROUGH && sync_root && !sync_sub && own) vp_end();
        if (own && where == 1) vp_end();                     // the server is not in the registry of the client
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t());
        auto root = ctx->create_supervisor<sup_t>().timeout(ms(50)).synchronize_start(sync_root).create_registry().name("root").finish();
        auto mksub = [&]() -> sup_ptr {
            if (far && own) return root->create_actor<sup_t>().timeout(ms(40)).synchronize_start(sync_sub).locality(&other).create_registry().name("sub").finish();
            if (far) return root->create_actor<sup_t>().timeout(ms(40)).synchronize_start(sync_sub).locality(&other).name("sub").finish();
            if (own) return root->create_actor<sup_t>().timeout(ms(40)).synchronize_start(sync_sub).create_registry().name("sub").finish();
            return root->create_actor<sup_t>().timeout(ms(40)).synchronize_start(sync_sub).name("sub").finish();
        };
        sup_ptr sub = mksub();
        auto pump2 = [&] { if (far) pump({root.get(), sub.get()}); else drain(root.get()); };
        service_ptr s, c;
        auto mk = [&](bool below, int tm) { return (below ? sub : root)->create_actor<service_t>().timeout(ms(tm)).finish(); };
        // a supervisor creates its registry when it initializes: names are looked up in the registry the supervisor has got by then
        auto server = [&] { s = mk(where != 1, 30); s->name = "alpha"; s->slow = slow; };
        auto client = [&] { c = mk(where != 2, 20); c->lookup = "alpha"; c->delayed = delayed; c->link = lk != 0; c->op_only = lk == 2; };
        if (own && where == 2) vp_end();
        if (first) { client(); server(); } else { server(); client(); }
        pump2();
        if (s->held) { s->let_go(); pump2(); }
        vp_check(W->fatal == 0, "nothing fails");
        bool unknown = !delayed && state_of(*c) == r::state_t::SHUT_DOWN;
        if (unknown) {
            vp_reach("unknown");
            vp_check(c->shutdown_reason->root()->ec == r::make_error_code(r::error_code_t::unknown_service), "an immediate lookup fails only when the name is unknown");
        } else {
            vp_check(state_of(*root) == r::state_t::OPERATIONAL && state_of(*sub) == r::state_t::OPERATIONAL, "the supervisors are operational, without waiting for a timeout");
            vp_check(state_of(*s) == r::state_t::OPERATIONAL && state_of(*c) == r::state_t::OPERATIONAL, "the services are operational, without waiting for a timeout");
            vp_check(c->found == s->get_address(), "the address found is the one of the server");
            vp_check(UP == 2, "everybody starts once");
            vp_reach("operational"); if (sync_root) vp_reach("synchronized");
        }
        root->do_shutdown(); pump2();
        vp_check(state_of(*root) == r::state_t::SHUT_DOWN && W->fatal == 0, "the tree shuts down");
        s.reset(); c.reset(); sub.reset(); root.reset(); ctx.reset();
        vp_reach("end");
    }
    run.done();
}
