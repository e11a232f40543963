// C05: the callback of a timer is called exactly once
#include <vp_rotor.h>
using namespace vp;
constexpr int N = 4, EVENTS = VP_THOROUGH ? 5 : 4;
struct t_t { r::request_id_t id = 0; int called = 0; bool started = false, cancelled = false, pending = false; int reaction = 0, arg = 0; int owner = 0; };
static t_t T[N]; static int USED;
static void invoke(r::request_id_t id, bool cancelled);
struct owner_t : actor_t {
    using actor_t::actor_t; int me = 0;
    void on_timer(r::request_id_t id, bool cancelled) noexcept { vp_check(state != r::state_t::SHUT_DOWN, "no timer callback after the shutdown"); invoke(id, cancelled); }
    void go(int slot, pt::time_duration d);
    void drop(int slot) { auto &t = T[slot]; t.cancelled = true; cancel_timer(t.id); }
};
static owner_t *OWNER[2];
struct delegate_t { int owner = 0; void on_timer(r::request_id_t id, bool cancelled) noexcept { invoke(id, cancelled); } };
static delegate_t DELEGATE;
static int slot_of(r::request_id_t id) { for (int i = 0; i < USED; ++i) if (T[i].pending && T[i].id == id) return i; return -1; }
static size_t index_of(r::request_id_t id) { for (size_t i = 0; i < TIMERS->size(); ++i) if ((*TIMERS)[i].handler->request_id == id) return i; return (size_t)-1; }
void owner_t::go(int slot, pt::time_duration d) {
    auto &t = T[slot]; t = t_t{}; t.owner = me; size_t n = timers();
    t.id = slot % 2 ? start_timer(d, DELEGATE, &delegate_t::on_timer) : start_timer(d, *this, &owner_t::on_timer);
    vp_check(timers() == n + 1 && TIMERS->back().interval == d, "the event loop gets the interval the actor asked for");
    vp_check(TIMERS->back().handler->request_id == t.id, "the event loop gets the identifier the actor got");
    for (size_t i = 0; i + 1 < timers(); ++i) vp_check((*TIMERS)[i].handler->request_id != t.id, "identifiers of pending timers and requests differ");
    t.started = t.pending = true;
}
static bool DOWN; // an actor is shutting down: everything left is cancelled
static void invoke(r::request_id_t id, bool cancelled) {
    int s = slot_of(id);
    vp_check(s >= 0, "the callback gets the identifier of its pending timer");
    auto &t = T[s]; ++t.called; t.pending = false;
    vp_log("cb", (vp_u64)(s * 2 + cancelled));
    vp_check(t.called == 1, "the callback is called once");
    vp_check(cancelled == (t.cancelled || DOWN), "the callback knows whether the timer was cancelled");
    if (cancelled) { vp_reach("cancelled"); return; }
    vp_reach("triggered");
    auto *o = OWNER[t.owner];
    switch (t.reaction) {
    case 1: if (USED < N) { int n = USED++; o->go(n, ms(7)); } break;                        // restart from the callback
    case 2: for (int i = 0; i < USED; ++i) if (T[i].pending && T[i].owner == t.owner) { o->drop(i); break; } break; // cancel another one
    case 3: o->do_shutdown(); break;
    }
}
struct req_t { using response_t = int; int x; };
int main() {
    run_t run;
    {
        for (auto &t : T) t = t_t{}; USED = 0; DOWN = false;
        tree_t t(true);
        if (vp_choice("ids", 2)) t.root->access<to::last_req_id>() = (r::request_id_t)-6;
        t.boot();
        auto a = t.root->create_actor<owner_t>().timeout(ms(9)).finish(); auto b = t.near->create_actor<owner_t>().timeout(ms(9)).finish(); b->me = 1; OWNER[0] = a.get(); OWNER[1] = b.get();
        t.run();
        auto rid = a->request<req_t>(b->get_address(), 1).send(ms(5)); // a request of the actor is pending as well
        t.run();
        a->go(USED++, pt::microseconds{(long)vp_range("us", 0, 1ul << 40)});
        if (vp_choice("other", 2)) b->go(USED++, ms(3)); else a->go(USED++, ms(3));
        for (int e = 0; e < EVENTS; ++e) {
            struct { int kind, slot; } ev[16]; int n = 0; ev[n++] = {0, 0};
            for (int i = 0; i < USED; ++i) if (T[i].pending && !DOWN) { ev[n++] = {1, i}; ev[n++] = {2, i}; }
            if (USED < N && state_of(*a) == r::state_t::OPERATIONAL) ev[n++] = {3, 0};
            if (!DOWN && state_of(*a) == r::state_t::OPERATIONAL) ev[n++] = {4, 0};
            if (index_of(rid) != (size_t)-1) ev[n++] = {5, 0};
            auto &x = ev[vp_choice("event", (unsigned)n)];
            if (x.kind == 0) break;
            else if (x.kind == 1) OWNER[T[x.slot].owner]->drop(x.slot);
            else if (x.kind == 2) { T[x.slot].reaction = (int)vp_choice("reaction", 4); fire_raw(index_of(T[x.slot].id)); }
            else if (x.kind == 3) { int s = USED++; a->go(s, ms(4)); }
            else if (x.kind == 4) { DOWN = true; a->do_shutdown(); t.run(); DOWN = false; vp_check(state_of(*a) == r::state_t::SHUT_DOWN, "the actor shuts down"); for (int i = 0; i < USED; ++i) vp_check(T[i].owner == 1 || !T[i].pending, "all the timers of the actor are called back"); }
            else fire_raw(index_of(rid));
            DOWN = true; t.run(); DOWN = false;
        }
        for (int i = 0; i < USED; ++i) {
            vp_check(T[i].pending == (T[i].called == 0), "a timer is pending until its callback"); vp_check(T[i].pending == (index_of(T[i].id) != (size_t)-1), "a pending timer is known to the event loop");
        }
        DOWN = true; t.down();
        for (int i = 0; i < USED; ++i) vp_check(T[i].called == 1, "every started timer is called back exactly once");
        vp_reach("end");
    }
    run.done();
}
