// C20: which children take their supervisor down, and why
#include <vp_rotor.h>
using namespace vp;
struct a_t : actor_t { // optionally fails its initialization
    using actor_t::actor_t; bool fails = false;
    void init_start() noexcept override { actor_t::init_start(); }
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { if (fails) resources->acquire(0); }, r::plugin::config_phase_t::INITIALIZING); }
    void shutdown_start() noexcept override { if (fails && resources->has(0)) resources->release(0); actor_t::shutdown_start(); }
};
enum { NONE, ESCALATE, AUTO, BOTH };
template <typename B> static auto marked(B &&b, unsigned m) { if (m & ESCALATE) b.escalate_failure(true); if (m & AUTO) b.autoshutdown_supervisor(true); }
template <typename A> static r::intrusive_ptr_t<A> make(sup_t &s, unsigned m) {
    switch (m) { // the settings in either order
    case NONE: return s.create_actor<A>().timeout(ms(7)).finish();
    case ESCALATE: return s.create_actor<A>().timeout(ms(7)).escalate_failure().finish();
    case AUTO: return s.create_actor<A>().autoshutdown_supervisor().timeout(ms(7)).finish();
    default: return s.create_actor<A>().escalate_failure().autoshutdown_supervisor().timeout(ms(7)).finish();
    }
}
static sup_ptr make_sup(sup_t &s, unsigned m, const void *loc) {
    switch (m) {
    case NONE: return s.create_actor<sup_t>().timeout(ms(10)).locality(loc).finish();
    case ESCALATE: return s.create_actor<sup_t>().timeout(ms(10)).locality(loc).escalate_failure().finish();
    case AUTO: return s.create_actor<sup_t>().timeout(ms(10)).locality(loc).autoshutdown_supervisor().finish();
    default: return s.create_actor<sup_t>().timeout(ms(10)).locality(loc).escalate_failure().autoshutdown_supervisor().finish();
    }
}
static r::intrusive_ptr_t<a_t> A, B; static unsigned HOW, WHO; static sup_t *SUB;
static r::extended_error_ptr_t cause(int who) { return r::make_error("cause", r::make_error_code(who == 0 ? r::error_code_t::discovery_failed : who == 1 ? r::error_code_t::already_linked : r::error_code_t::supervisor_defined)); }
static void end_of(r::actor_base_t &x, int who) { if (HOW == 1) x.do_shutdown(cause(who)); else x.do_shutdown(); }
static void step() { if (WHO == 0) end_of(*A, 0); else if (WHO == 1) end_of(*B, 1); else end_of(*SUB, 2); }
static bool chain_has(const r::extended_error_ptr_t &e, const std::error_code &ec) { for (auto p = e; p; p = p->next) if (p->ec == ec) return true; return false; }
int main() {
    run_t run;
    {
        unsigned ma = vp_choice("mark", 4), ms_ = vp_choice("supervisor's mark", 4);
        unsigned where = vp_choice("loop", VP_THOROUGH ? 3 : 2); // the supervisor is the root, a child on the same loop or on another one
        if (!VP_THOROUGH && where == 1) where = 2;
        if (where == 0 && ms_) vp_end();
        WHO = vp_choice("who", where ? 3 : 2); HOW = vp_choice("how", 3); // normally, with an error, a failed initialization (of A)
        if (HOW == 2 && WHO) vp_end();
        bool late = HOW == 2 || vp_choice("late", 2);
        {
            static const char other = 0;
            tree_t t; if (where == 0) t.boot();
            sup_ptr sub; if (where) { sub = make_sup(*t.root, ms_, where == 2 ? &other : t.root->loc); if (where == 2) t.far = sub; t.boot(); } SUB = sub ? sub.get() : t.root.get();
            B = make<a_t>(*SUB, NONE); if (!late) { A = make<a_t>(*SUB, ma); }
            t.run();
            if (late) { A = make<a_t>(*SUB, ma); A->fails = HOW == 2; }
            inject_t inj("at", HOW == 2 ? 0 : 63, step); if (HOW == 2) inj.fired = true;
            t.run();
            if (HOW == 2) { size_t m = timer_of(SUB); vp_check(m < timers(), "the initialization has a timer"); fire_raw(m); t.run(); }
            else if (!inj.fired) inj.late();
            t.run();
            bool abn = HOW != 0;
            auto term = [&](unsigned m, bool abnormal) { return (m & AUTO) || ((m & ESCALATE) && abnormal); };
            auto code = WHO == 0 ? (HOW == 2 ? r::make_error_code(r::error_code_t::request_timeout) : HOW == 1 ? cause(0)->ec : r::make_error_code(r::shutdown_code_t::normal)) : HOW == 1 ? cause((int)WHO)->ec : r::make_error_code(r::shutdown_code_t::normal);
            auto gone = [&](r::actor_base_t &x, bool is, const char *m1, const char *m2) { if (is) vp_check(state_of(x) == r::state_t::SHUT_DOWN, m1); else vp_check(state_of(x) == r::state_t::OPERATIONAL, m2); };
            bool sub_down = WHO == 2 || (WHO == 0 && term(ma, abn));
            bool root_down = where ? sub_down && term(ms_, abn) : sub_down;
            gone(*SUB, sub_down, "a child which is configured to do so shuts its supervisor down", "a supervisor operates unless a child is configured to take it down");
            gone(*t.root, root_down, "the shutdown is carried upward as configured", "the shutdown is carried upward only if configured so");
            if (sub_down) {
                auto &why = SUB->get_shutdown_reason(); vp_check(why && why->root()->ec == code, "the reason of the supervisor's shutdown leads to the root cause");
                if (WHO == 0) { auto c = (ma & ESCALATE) && abn ? r::make_error_code(r::error_code_t::failure_escalation) : r::make_error_code(r::shutdown_code_t::child_down); vp_check(chain_has(why, c), "the reason tells why the supervisor is shut down"); vp_reach("taken down"); }
                vp_check(state_of(*A) == r::state_t::SHUT_DOWN && state_of(*B) == r::state_t::SHUT_DOWN, "the children are shut down with the supervisor");
            } else { vp_reach("stays"); vp_check(state_of(WHO == 0 ? *B : *A) == r::state_t::OPERATIONAL, "the sibling is not affected"); }
            if (root_down && where) { vp_check(t.root->get_shutdown_reason()->root()->ec == code, "the root cause is carried upward"); vp_reach("carried upward"); }
            vp_reach("end"); A.reset(); B.reset(); sub.reset(); SUB = nullptr;
            t.down();
        }
    }
    run.done();
}
