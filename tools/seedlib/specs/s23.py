ID='blocking-handler-timer'; PROP='C27'; LIBS='_build/lib/librotor_thread.a _build/lib/librotor.a -lboost_date_time -lboost_system -lpthread'
NEEDS='a timer which is started by a blocking (I/O tagged) handler after it has spent more time than the interval of the timer'
BREAKS='the deadline of the timer counts from the outdated time, so that it is triggered too early (immediately)'
EDITS=[('src/rotor/thread/system_context_thread.cpp','    if (intercepting)\n        update_time();\n','    if (intercepting && timer_nodes.empty())\n        update_time();\n')]
DEMO=r'''
#include <rotor.hpp>
#include <rotor/thread.hpp>
#include <chrono>
#include <cstdio>
#include <thread>
namespace r = rotor;
namespace rth = rotor::thread;
struct job_t {};
using clk = std::chrono::steady_clock;
static clk::time_point started, fired;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&actor_t::on_job)->tag_io(); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        start_timer(r::pt::seconds(20), *this, &actor_t::on_far);
        send<job_t>(address);
    }
    void on_job(r::message_t<job_t> &) noexcept {
        std::this_thread::sleep_for(std::chrono::milliseconds(400));
        started = clk::now();
        start_timer(r::pt::milliseconds(200), *this, &actor_t::on_near);
    }
    void on_far(r::request_id_t, bool) noexcept {}
    void on_near(r::request_id_t, bool cancelled) noexcept { if (!cancelled) fired = clk::now(); supervisor->do_shutdown(); }
};
int main() {
    auto ctx = rth::system_context_ptr_t{new rth::system_context_thread_t()};
    auto sup = ctx->create_supervisor<rth::supervisor_thread_t>().timeout(r::pt::seconds(1)).finish();
    auto act = sup->create_actor<actor_t>().timeout(r::pt::seconds(1)).finish();
    sup->start();
    ctx->run();
    auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(fired - started).count();
    std::printf("triggered after %ld ms\n", long(ms));
    return ms >= 195 ? 0 : 3;
}
'''
