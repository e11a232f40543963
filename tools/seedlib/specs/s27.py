ID='forwarder-failed-operation'; PROP='C28'
NEEDS='an asio operation with one result (forwarder with result and error handler) which fails, whose error handler sends a message, and no other event in the strand'
BREAKS='the message which the error handler sent stays in the queue until something else happens in the strand of the supervisor'
EDITS=[('include/rotor/asio/forwarder.hpp','''                ((*actor).*handler)(ec);
                actor->get_supervisor().do_process();
            });
        } else {
            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler),
                                 arg = std::move(arg)]() mutable {''','''                ((*actor).*handler)(ec);
            });
        } else {
            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler),
                                 arg = std::move(arg)]() mutable {''')]
LIBS='_build/lib/librotor_asio.a _build/lib/librotor.a -lboost_date_time -lboost_system -lpthread'
DEMO=r'''
#include "rotor.hpp"
#include "rotor/asio.hpp"
#include <cstdio>
namespace r = rotor; namespace ra = rotor::asio; namespace as = boost::asio; namespace pt = boost::posix_time;
namespace payload { struct note_t { int v; }; }
static int NOTES, FAILS, VALUES;
struct act_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&act_t::on_note); }); }
    void on_note(r::message_t<payload::note_t> &) noexcept { ++NOTES; }
    void on_value(std::size_t) noexcept { ++VALUES; send<payload::note_t>(address, 1); }
    void on_fail(const boost::system::error_code &) noexcept { ++FAILS; send<payload::note_t>(address, 2); }
};
int main() {
    as::io_context io; auto strand = std::make_shared<as::io_context::strand>(io);
    auto ctx = r::intrusive_ptr_t<ra::system_context_asio_t>(new ra::system_context_asio_t(io));
    auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(strand).timeout(pt::milliseconds{500}).finish();
    auto a = sup->create_actor<act_t>().timeout(pt::milliseconds{500}).finish();
    sup->start(); io.poll(); io.restart();
    { ra::forwarder_t f(*a, &act_t::on_value, &act_t::on_fail); as::post(io, [f = std::move(f)]() mutable { f(boost::system::error_code{}, std::size_t{5}); }); }
    io.poll(); io.restart();
    bool ok = VALUES == 1 && NOTES == 1;
    { ra::forwarder_t f(*a, &act_t::on_value, &act_t::on_fail); as::post(io, [f = std::move(f)]() mutable { f(boost::system::errc::make_error_code(boost::system::errc::connection_reset), std::size_t{0}); }); }
    io.poll(); io.restart();
    ok = ok && FAILS == 1 && NOTES == 2;
    std::printf("values %d fails %d notes %d\n", VALUES, FAILS, NOTES);
    sup->shutdown(); io.poll(); io.restart();
    a.reset(); sup.reset();
    return ok ? 0 : 3;
}
'''
