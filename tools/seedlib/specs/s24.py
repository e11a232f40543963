ID='restart-period-in-seconds'; PROP='C19'
NEEDS='a spawned actor with a restart period which is not a whole number of seconds, whose instance terminates before the end of the period but in the same whole second'
BREAKS='the period is compared in whole seconds, so that the new instance is created earlier than a period after the previous one'
EDITS=[('src/rotor/detail/child_info.cpp','    if (after >= restart_period) {\n','    if (after.total_seconds() >= restart_period.total_seconds()) {\n')]
DEMO=r'''
#include "demo.h"
#include <unistd.h>
static std::vector<r::pt::ptime> born;
struct worker_t : r::actor_base_t { using r::actor_base_t::actor_base_t; };
static r::intrusive_ptr_t<worker_t> current;
int main() {
    auto ctx = make_ctx();
    auto s = make_root(ctx); sup_t *l = s.get(); drain(l);
    auto period = ms(1950);
    s->spawn([&](r::supervisor_t &sup, const r::address_ptr_t &spawner) {
        born.push_back(r::pt::microsec_clock::universal_time());
        current = sup.create_actor<worker_t>().timeout(ms(100)).spawner_address(spawner).finish();
        return r::actor_ptr_t(current.get());
    }).restart_policy(r::restart_policy_t::always).restart_period(period).spawn();
    drain(l); EXPECT(born.size() == 1);
    usleep(1050 * 1000);
    current->do_shutdown(); drain(l);            // too early for the next one
    EXPECT(born.size() == 1);
    long t = timer_of(s.get()); EXPECT(t >= 0); fire(size_t(t)); drain(l); EXPECT(born.size() == 2);
    current.reset();
    sup_ptr sp(s); down(sp, {l});
}
'''
