ID='ev-burst-of-messages'; PROP='C29'; LIBS='_build/lib/librotor_ev.a _build/lib/librotor.a -lev -lboost_date_time -lboost_system'
NEEDS='several messages for the loop are enqueued (by other threads or before it runs) before it wakes up, with no later message'
BREAKS='only the first of the messages which came with one wake-up is handled, the others stay in the inbound queue until somebody wakes up the loop again'
EDITS=[('src/rotor/ev/supervisor_ev.cpp','    while (inbound.pop(ptr)) {\n        queue.emplace_back(ptr, false);\n    }\n}','    if (inbound.pop(ptr)) {\n        queue.emplace_back(ptr, false);\n    }\n}')]
DEMO=r'''
#include <rotor.hpp>
#include <rotor/ev.hpp>
#include <cstdio>
#include <thread>
namespace r = rotor;
namespace re = rotor::ev;
struct probe_t {};
static int handled = 0, at_timer = -1;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&actor_t::on_probe); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        // while this handler runs, another thread sends 7 messages
        auto sup = supervisor;
        auto addr = address;
        std::thread([sup, addr]() { for (int i = 0; i < 7; ++i) sup->enqueue(r::make_message<probe_t>(addr)); }).join();
        start_timer(r::pt::milliseconds(500), *this, &actor_t::on_timer);
    }
    void on_probe(r::message_t<probe_t> &) noexcept { ++handled; }
    void on_timer(r::request_id_t, bool) noexcept { at_timer = handled; do_shutdown(); supervisor->do_shutdown(); }
};
int main() {
    auto loop = ev_loop_new(0);
    auto ctx = re::system_context_ptr_t{new re::system_context_ev_t()};
    auto sup = ctx->create_supervisor<re::supervisor_ev_t>().loop(loop).loop_ownership(true).timeout(r::pt::milliseconds(200)).finish();
    auto act = sup->create_actor<actor_t>().timeout(r::pt::milliseconds(200)).finish();
    sup->start();
    ev_run(loop);
    std::printf("handled %d messages before the timer\n", at_timer);
    return at_timer == 7 ? 0 : 3;
}
'''
