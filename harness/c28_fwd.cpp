// asio: forwarder_t brings the completions of an actor's operations into the strand of its supervisor (stand-in of boost.asio, as in c28_asio.cpp)
#include <vp_rotor.h>
#include "rotor/asio.hpp"
namespace r = rotor; namespace ra = rotor::asio; namespace as = boost::asio; namespace pt = boost::posix_time;
extern "C" vp_u64 vp_now_ns(void) { return 1000000; }
namespace {
struct ctx_t : ra::system_context_asio_t { using ra::system_context_asio_t::system_context_asio_t; void on_error(r::actor_base_t *, const r::extended_error_ptr_t &) noexcept override { vp_fail("no fatal error is reported"); } };
namespace payload { struct note_t { unsigned n; }; }
using note_t = r::message_t<payload::note_t>;
enum { PLAIN, VALUE, PLAIN_ERR, VALUE_ERR, KINDS };
struct val_t { unsigned v; bool moved = false; explicit val_t(unsigned v_) : v{v_} {} val_t(val_t &&o) : v{o.v} { o.moved = true; } val_t(const val_t &) = default; };
struct act_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t; static int ALIVE; unsigned calls[KINDS * 2] = {}, notes = 0, sum = 0; act_t(r::actor_config_t &c) : r::actor_base_t(c) { ++ALIVE; } ~act_t() { --ALIVE; }
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&act_t::on_note); }); }
    bool in_strand() { return static_cast<ra::supervisor_asio_t &>(*supervisor).get_strand().running_in_this_thread(); }
    void called(unsigned k) { vp_check(in_strand(), "a handler of the actor runs in the strand of its supervisor"); ++calls[k]; send<payload::note_t>(address, k); }
    void on_note(note_t &m) noexcept { vp_check(in_strand(), "a handler of the actor runs in the strand of its supervisor"); ++notes; sum += 1u << (m.payload.n * 3); }
    void on_plain() noexcept { called(0); }
    void on_value(val_t v) noexcept { vp_check(v.v == EXPECT, "the handler gets the value of the operation"); called(1); }
    void on_plain_ok() noexcept { called(2); }
    void on_value_ok(val_t v) noexcept { vp_check(v.v == EXPECT, "the handler gets the value of the operation"); called(3); }
    void on_plain_fail(const boost::system::error_code &ec) noexcept { vp_check(ec.value() == (int)EC, "the error handler gets the error"); called(4); }
    void on_value_fail(const boost::system::error_code &ec) noexcept { vp_check(ec.value() == (int)EC, "the error handler gets the error"); called(5); }
    static unsigned EXPECT, EC;
};
int act_t::ALIVE; unsigned act_t::EXPECT, act_t::EC;
}
int main() {
    auto live = vp_live(); act_t::ALIVE = 0;
    {
        as::io_context io; auto s = std::make_shared<as::io_context::strand>(io), other = std::make_shared<as::io_context::strand>(io);
        auto ctx = r::intrusive_ptr_t<ctx_t>(new ctx_t(io));
        auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(s).timeout(pt::milliseconds{10}).finish();
        auto a = sup->create_actor<act_t>().timeout(pt::milliseconds{10}).finish();
        auto settle = [&] { for (int i = 0; i < 40; ++i) { if (!s->impl->q.empty()) io.run_strand(s->impl); else if (!other->impl->q.empty()) io.run_strand(other->impl); else if (!io.ready.empty()) io.run_ready(0); else break; } };
        sup->start(); settle();
        vp_check((int)vp::state_of(*a) == (int)r::state_t::OPERATIONAL, "the actor is operational");
        unsigned count[8] = {}, total = 0, want = 0;
        auto check = [&] {
            settle();
            unsigned calls = 0; for (unsigned k = 0; k < 6; ++k) { calls += a->calls[k]; vp_check(a->calls[k] == count[k], "exactly the handler which belongs to the outcome is called, once"); }
            vp_check(calls == total && a->notes == total && a->sum == want, "messages sent by a handler are processed");
        };
        act_t::EXPECT = (unsigned)vp_range("value", 0, 1000); act_t::EC = (unsigned)vp_range("code", 1, 100);
        for (int i = 0; i < (VP_THOROUGH ? 3 : 2); ++i) {
            unsigned kind = vp_choice("kind", KINDS + 1); if (kind == KINDS) break;
            bool fails = kind >= PLAIN_ERR && vp_choice("fails", 2);
            boost::system::error_code ec = fails ? boost::system::error_code((int)act_t::EC, boost::system::system_category()) : boost::system::error_code();
            unsigned slot = fails ? 2 + kind : kind;
            // the operation completes in another strand or outside of any
            auto done = [&](auto fwd, auto &&...args) { if (vp_choice("from", 2)) { as::defer(*other, [fwd = std::move(fwd), args...]() mutable { fwd(args...); }); } else fwd(args...); };
            val_t v(act_t::EXPECT);
            switch (kind) {
            case PLAIN: { ra::forwarder_t f(*a, &act_t::on_plain); done(std::move(f)); break; }
            case VALUE: { ra::forwarder_t f(*a, &act_t::on_value); done(std::move(f), v); break; }
            case PLAIN_ERR: { ra::forwarder_t f(*a, &act_t::on_plain_ok, &act_t::on_plain_fail); done(std::move(f), ec); break; }
            default: { ra::forwarder_t f(*a, &act_t::on_value_ok, &act_t::on_value_fail); done(std::move(f), ec, v); break; }
            }
            ++count[slot]; ++total; want += 1u << (slot * 3);
            if (vp_choice("another one meanwhile", 2)) continue;
            check();
        }
        check();
        if (total) vp_reach("forwarded");
        // nothing is forwarded to a released actor
        sup->shutdown(); settle();
        vp_check((int)vp::state_of(*sup) == (int)r::state_t::SHUT_DOWN, "the supervisor is shut down");
        a.reset(); sup.reset(); ctx.reset();
        vp_check(!act_t::ALIVE, "the forwarders do not keep the actor");
    }
    vp_check(vp_live() == live, "everything is released");
    vp_reach("end");
    return 0;
}
