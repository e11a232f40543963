ID='fltk-late-inbound'; PROP='C30'; LIBS='_build/lib/librotor_fltk.a _build/lib/librotor.a -lfltk -lX11 -lboost_date_time -lboost_system -lpthread'
NEEDS='a message is enqueued by another thread while the loop is handling the messages it has fetched already'
BREAKS='the late message is never delivered, nor anything which is sent to this loop afterwards, as nobody wakes it up any more'
EDITS=[('src/rotor/fltk/system_context_fltk.cpp','            try_fetch = queue_counter.fetch_sub(fetched) != fetched;\n','            try_fetch = queue_counter.fetch_sub(fetched) < fetched;\n')]
DEMO=r'''
#include <rotor.hpp>
#include <rotor/fltk.hpp>
#include <FL/Fl.H>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
namespace r = rotor;
namespace rf = rotor::fltk;
struct first_t {};
struct second_t {};
static int firsts = 0, seconds_ = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&actor_t::on_first); s.subscribe_actor(&actor_t::on_second); });
    }
    void from_thread(r::message_ptr_t m) { auto sup = supervisor; std::thread([sup, m]() mutable { sup->enqueue(std::move(m)); }).join(); }
    void on_start() noexcept override { r::actor_base_t::on_start(); from_thread(r::make_message<first_t>(address)); }
    void on_first(r::message_t<first_t> &) noexcept { ++firsts; from_thread(r::make_message<second_t>(address)); }
    void on_second(r::message_t<second_t> &) noexcept { ++seconds_; }
};
int main() {
    Fl::lock();
    auto ctx = rf::system_context_ptr_t(new rf::system_context_fltk_t());
    auto sup = ctx->create_supervisor<rf::supervisor_fltk_t>().timeout(r::pt::milliseconds(200)).finish();
    auto act = sup->create_actor<actor_t>().timeout(r::pt::milliseconds(200)).finish();
    sup->start();
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(2);
    while (!seconds_ && std::chrono::steady_clock::now() < end) { sup->do_process(); Fl::wait(0.02); }
    std::printf("first: %d second: %d\n", firsts, seconds_);
    std::fflush(stdout);
    std::_Exit(firsts == 1 && seconds_ == 1 ? 0 : 3);
}
'''
