// Reference counted objects shared by threads: every interleaving of the counter operations.
#include "vp_rotor.h"
#ifndef THREADS
#define THREADS 2
#endif
namespace {
volatile int FREED, LATE;
struct load_t { int v[4]; load_t(int a) { for (int &x : v) x = a; } load_t(const load_t &o) = default; ~load_t() { FREED = FREED + 1; } };
using msg_t = r::message_t<load_t>;
struct cell_t : r::actor_base_t { using r::actor_base_t::actor_base_t; ~cell_t() { FREED = FREED + 1; } };
struct node_t : r::extended_error_t { using r::extended_error_t::extended_error_t; };
vp::sup_t *SUP;
// one holder: copies the reference, looks at the object, drops the references in the given order
template <class P, class U> struct holder_t { P p; U use; unsigned ops; };
template <class P, class U> void *work(void *a) {
    auto &h = *static_cast<holder_t<P, U> *>(a);
    switch (h.ops) {
    case 0: h.p.reset(); break;                                               // drop at once
    case 1: { P q = h.p; h.p.reset(); h.use(*q); q.reset(); } break;          // copy, drop the original, use, drop
    case 2: { P q = std::move(h.p); h.use(*q); } break;                       // move
    case 3: { P q = h.p; P w = q; q = nullptr; h.use(*h.p); h.p = std::move(w); h.p.reset(); } break;
    }
    return nullptr;
}
template <class P, class U> void share(P p, U use) {
    holder_t<P, U> h[THREADS]{}; vp_u64 id[THREADS];
    for (int i = 0; i < THREADS; ++i) { h[i].p = p; h[i].use = use; h[i].ops = vp_choice("ops", i ? 4 : 3); }
    unsigned mine = vp_choice("main_drops", 3); // before the threads start, while they run, after they ended
    if (mine == 0) p.reset();
    for (int i = 0; i < THREADS; ++i) id[i] = vp_thread_create(work<P, U>, &h[i]);
    if (mine == 1) { P q = p; p.reset(); use(*q); q.reset(); }
    for (int i = 0; i < THREADS; ++i) vp_thread_join(id[i]);
    if (mine == 2) { use(*p); vp_check(p->use_count() == 1, "all other holders are counted off"); p.reset(); }
}
struct use_msg { void operator()(r::message_base_t &m) const { auto &l = static_cast<msg_t &>(m).payload; vp_check(l.v[0] == 7 && l.v[3] == 7 && !FREED, "a held message is intact"); } };
struct use_addr { void operator()(r::address_t &a) const { vp_check(&a.supervisor == SUP && a.same_locality(*SUP->get_address()), "a held address is intact"); } };
struct use_act { void operator()(r::actor_base_t &a) const { vp_check((int)vp::state_of(a) == (int)r::state_t::SHUT_DOWN && !FREED, "a held actor is intact"); } };
struct use_err { void operator()(r::extended_error_t &e) const {
    vp_check(e.context == "ctx" && e.next && e.next->context == "root" && e.root()->ec.value() == (int)r::error_code_t::cancelled, "a held chain of reasons is intact"); if (e.request) use_msg()(*e.request); } };
} // namespace
int main() {
    vp::run_t run; FREED = 0;
    {
        vp::tree_t t; SUP = t.root.get(); t.boot();
        unsigned kind = vp_choice("kind", 5), freed = 0;
        if (kind == 0) { auto a = SUP->make_address(); r::message_ptr_t m = r::make_message<load_t>(a, 7); FREED = 0; a.reset(); share(std::move(m), use_msg()); freed = 1; }
        else if (kind == 1) share(SUP->make_address(), use_addr());
        else if (kind == 2) { r::actor_ptr_t a = SUP->create_actor<cell_t>().timeout(pt::milliseconds{10}).finish(); vp::drain(SUP); a->do_shutdown(); vp::drain(SUP); share(std::move(a), use_act()); freed = 1; }
        else { // reasons, the second of which holds a request message
            auto root = r::make_error("root", r::make_error_code(r::error_code_t::cancelled));
            r::message_ptr_t m; if (kind == 4) { m = r::make_message<load_t>(SUP->get_address(), 7); freed = 1; FREED = 0; }
            auto e = r::make_error("ctx", r::make_error_code(r::error_code_t::failure_escalation), root, m); m.reset(); root.reset();
            share(std::move(e), use_err());
        }
        vp_check(FREED == (int)freed, "the object is released exactly once"); vp_log("freed", FREED);
        t.down();
    }
    vp_reach("end"); run.done();
    return 0;
}
