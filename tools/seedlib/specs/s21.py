ID='asio-expiry-off-strand'; PROP='C28'; LIBS='_build/lib/librotor_asio.a _build/lib/librotor.a -lboost_date_time -lboost_system -lpthread'
NEEDS='a timer expires while the strand is busy in another thread of the io context'
BREAKS='the timer callback is executed outside of the strand, in parallel with the handlers of the supervisor'
EDITS=[('src/rotor/asio/supervisor_asio.cpp','            asio::defer(strand, [self = self, timer_id = timer_id]() {\n','            asio::post(strand.context(), [self = self, timer_id = timer_id]() {\n')]
DEMO=r'''
#include <rotor.hpp>
#include <rotor/asio.hpp>
#include <cstdio>
namespace r = rotor;
namespace ra = rotor::asio;
namespace asio = boost::asio;
static std::shared_ptr<asio::io_context::strand> strand;
static int good = 0, bad = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        start_timer(r::pt::milliseconds(5), *this, &actor_t::on_timer);
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        if (!cancelled) ++(strand->running_in_this_thread() ? good : bad);
        supervisor->do_shutdown();
    }
};
int main() {
    asio::io_context io{1};
    auto ctx = ra::system_context_asio_t::ptr_t{new ra::system_context_asio_t(io)};
    strand = std::make_shared<asio::io_context::strand>(io);
    auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(strand).timeout(r::pt::milliseconds(200)).finish();
    auto act = sup->create_actor<actor_t>().timeout(r::pt::milliseconds(200)).finish();
    sup->start();
    io.run();
    std::printf("in the strand: %d, outside: %d\n", good, bad);
    return good == 1 && bad == 0 ? 0 : 3;
}
'''
