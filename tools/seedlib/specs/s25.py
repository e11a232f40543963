ID='flag-raised-before-start'; PROP='C32'
NEEDS='the shutdown flag is raised before the supervisor becomes operational'
BREAKS='the flag is never noticed, the supervisor does not shut down'
EDITS=[('src/rotor/supervisor.cpp','    if (shutdown_flag) {\n        start_timer','    if (shutdown_flag && !shutdown_flag->load()) {\n        start_timer')]
DEMO=r'''
#include "demo.h"
#include <atomic>
int main() {
    std::atomic_bool flag{true};
    auto ctx = make_ctx();
    auto s = ctx->create_supervisor<sup_t>().timeout(ms(100)).shutdown_flag(flag, ms(5)).finish();
    sup_t *l = s.get(); drain(l);
    for (int i = 0; i < 3 && state_of(*s) != r::state_t::SHUT_DOWN; ++i) { auto t = timer_of(s.get()); if (t >= 0) fire(size_t(t)); drain(l); }
    EXPECT(state_of(*s) == r::state_t::SHUT_DOWN);
}
'''
