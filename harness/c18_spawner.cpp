// C18: when a terminated spawned actor is restarted; C19: attempts, period, escalation
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 18
#endif
constexpr long PERIOD = 5; // ms
static vp_u64 NOW; static long ZONE; static bool ZONES; // the daylight saving time may begin
extern "C" vp_u64 vp_wall_us(void) { return NOW; }
extern "C" long vp_zone_s(void) { return ZONE; }
enum { NORMAL, ABNORMAL };
struct child_t : actor_t { using actor_t::actor_t; bool again = false, asked_bad = false; bool should_restart() const noexcept override { return again; } };
static r::intrusive_ptr_t<child_t> ACT; static sup_t *SUP; static int CALLS; static vp_u64 LAST; static bool BAD_FACTORY; static bool FAILS_INIT, ACT_AGAIN; static int LAST_BAD; // 1 no instance, 2 an instance which fails
constexpr int STEPS = VP_THOROUGH ? 4 : 3; constexpr bool MAYBE_WAIT = false;
struct broken_t : child_t { // never becomes operational
    using child_t::child_t;
    void init_start() noexcept override { child_t::init_start(); do_shutdown(r::make_error("x", r::make_error_code(r::error_code_t::cancelled))); }
};
static r::actor_ptr_t factory(r::supervisor_t &s, const r::address_ptr_t &spawner) {
    vp_check(state_of(*SUP) < r::state_t::SHUTTING_DOWN, "a shutting down supervisor never restarts anything");
    vp_check(!ACT || state_of(*ACT) == r::state_t::SHUT_DOWN, "a new instance is created only after the previous one terminated");
    if (CALLS++) vp_check(NOW - LAST >= PERIOD * 1000, "a new instance is not created earlier than the period after the previous one was");
    LAST = NOW; LAST_BAD = 0;
    if (BAD_FACTORY && vp_choice("throws", 2)) { LAST_BAD = 1; ACT.reset(); throw 1; }
    if (FAILS_INIT && vp_choice("breaks", 2)) { LAST_BAD = 2; ACT = s.create_actor<broken_t>().timeout(ms(7)).spawner_address(spawner).finish(); return ACT; }
    ACT = s.create_actor<child_t>().timeout(ms(7)).spawner_address(spawner).finish();
    return ACT;
}
static void pass(vp_u64 max_us) { NOW += vp_range("elapsed", 0, max_us); if (ZONES && vp_choice("zone", 2)) { ZONES = false; ZONE = 3600; } }
static tree_t *T;
static void kill_sup() { SUP->do_shutdown(); }
int main() {
    run_t run;
    {
        NOW = 1000; CALLS = LAST_BAD = 0; ACT_AGAIN = false; BAD_FACTORY = FAILS_INIT = false; ZONE = 0;
        r::restart_policy_t pol = (r::restart_policy_t)vp_choice("policy", 5);
        unsigned max = VP_THOROUGH || MODE == 19 ? vp_choice("max", 3) : 2 * vp_choice("max", 2); bool esc = (VP_THOROUGH || MODE == 19) && vp_choice("escalate", 2);
        unsigned kind = vp_choice("kind", 3); BAD_FACTORY = kind == 1; FAILS_INIT = kind == 2; // what can go wrong with the new instances
        ZONES = MODE == 19 && (VP_THOROUGH || !kind);
        bool nested = vp_choice("nested", 2), before = (VP_THOROUGH || !nested) && vp_choice("before", 2);
        {
            tree_t t(nested); T = &t; SUP = nested ? t.near.get() : t.root.get();
            if (!before) t.boot();
            auto spawn = [&] { SUP->spawn(factory).restart_policy(pol).max_attempts(max).restart_period(ms(PERIOD)).escalate_failure(esc).spawn(); };
            spawn();
            bool injected = (VP_THOROUGH || MODE == 18) && vp_choice("down", 2); // the supervisor is asked to shut down at an arbitrary moment
            inject_t inj("at", injected ? 63 : 0, kill_sup); if (!injected) inj.fired = true;
            t.run();
            enum { RESTART, STOP, ESCALATE, MAYBE };
            auto outcome = [&](bool abn, bool again, int attempts) { // what has to follow the termination of the last of that many instances
                bool want = pol == r::restart_policy_t::always || (pol == r::restart_policy_t::normal_only && !abn) || (pol == r::restart_policy_t::fail_only && abn) || (pol == r::restart_policy_t::ask_actor && again);
                if (want && (!max || attempts < (int)max)) return RESTART;
                if (!abn || !esc) return STOP;
                return pol == r::restart_policy_t::never || pol == r::restart_policy_t::ask_actor ? MAYBE : ESCALATE; // not specified for "never" and for an actor which does not want to be restarted
            };
            auto spawn_timer = [&] { size_t m = timers(); for (size_t k = 0; k < timers(); ++k) if ((*TIMERS)[k].interval == ms(PERIOD)) m = k; return m; };
            bool down = false, terminated = false, abn = false, due = true, fired = true; int calls = 0; // the calls of the factory before the last event
            for (int i = 0; ; ++i) {
                if (inj.fired && injected) { down = true; break; }
                int o = STOP; bool wait = false; // what has followed the last event, and whether another attempt has to be made later
                if (terminated) {
                    o = outcome(abn, ACT_AGAIN, calls);
                    if (o == RESTART) { if (due) vp_check(CALLS == calls + 1, "the actor is restarted at once when the policy says so and the period has passed"); if (CALLS == calls) wait = true; else vp_check(CALLS == calls + 1, "the actor is restarted once"); vp_reach("restarted"); }
                    else { vp_check(CALLS == calls, "the actor is not restarted unless the policy says so"); vp_reach("not restarted"); }
                } else if (fired) vp_check(CALLS == calls + (!max || calls < (int)max), "an attempt is made when its time comes");
                bool first = calls == 0, bad = false; // the outcome of the last attempt
                if (CALLS > calls && LAST_BAD == 1) { bad = true; wait = pol == r::restart_policy_t::always || pol == r::restart_policy_t::fail_only; if (max && CALLS >= (int)max) wait = MAYBE_WAIT; }
                if (CALLS > calls && LAST_BAD == 2) { bad = true; abn = true; o = outcome(true, false, CALLS); wait = o == RESTART; }
                if (first && bad && before && state_of(*SUP) == r::state_t::SHUT_DOWN && CALLS == 1) { vp_reach("supervisor is down"); down = true; break; }
                vp_check(!max || CALLS <= (int)max, "a spawned actor is not instantiated more often than configured");
                bool escalated = state_of(*SUP) != r::state_t::OPERATIONAL;
                if (o == ESCALATE) vp_check(escalated, "the supervisor shuts down when restarting is given up because of a failure");
                if (escalated) {
                    vp_check(o == ESCALATE || o == MAYBE, "the supervisor keeps running unless a failure is escalated");
                    vp_check(SUP->get_shutdown_reason()->root()->ec == r::make_error_code(r::error_code_t::cancelled), "the failure is the root reason of the shutdown");
                    vp_reach("escalated"); down = true; break;
                }
                size_t tm = spawn_timer(); bool waits = tm != timers(), alive = ACT && state_of(*ACT) == r::state_t::OPERATIONAL;
                if (wait) vp_check(waits, "another attempt is made after the period"); else if (waits) vp_check(LAST_BAD == 1 && max && CALLS >= (int)max, "no attempt is scheduled unless the policy says so");
                vp_check(alive == (CALLS > calls ? !bad : false), "there is a new instance after a successful attempt only");
                if (i == STEPS || (!alive && !waits)) break;
                calls = CALLS; terminated = fired = false;
                if (alive) {
                    terminated = true; abn = vp_choice("abnormal", 2); pass(7000);
                    ACT_AGAIN = ACT->again = pol == r::restart_policy_t::ask_actor && vp_choice("again", 2); due = NOW - LAST >= PERIOD * 1000;
                    auto old = ACT;
                    if (abn) ACT->do_shutdown(r::make_error("x", r::make_error_code(r::error_code_t::cancelled))); else ACT->do_shutdown();
                    t.run(); vp_check(state_of(*old) == r::state_t::SHUT_DOWN, "the actor terminates");
                } else { fired = true; NOW += PERIOD * 1000; pass(2000); fire_raw(tm); t.run(); vp_reach("timer"); } // the time of the next attempt comes
            }
            if (injected && !inj.fired) inj.late();
            calls = CALLS;
            if (!down) { vp_check(state_of(*SUP) == r::state_t::OPERATIONAL, "the supervisor keeps running"); }
            t.run();
            if (!down) SUP->do_shutdown();
            t.run();
            vp_check(state_of(*SUP) == r::state_t::SHUT_DOWN, "the supervisor shuts down");
            vp_check(!ACT || state_of(*ACT) == r::state_t::SHUT_DOWN, "no instance outlives the supervisor"); if (!injected) vp_check(CALLS == calls, "nothing is restarted by the shutdown");
            vp_reach("end"); ACT.reset();
            t.down();
        }
    }
    run.done();
}
