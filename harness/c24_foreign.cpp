// C24 (C02, C25): an actor subscribed to an address of another event loop
#include <vp_rotor.h>
using namespace vp;
#ifndef MODE
#define MODE 24
#endif
#ifndef HOLD // whether the user holds the actors after they have terminated
#define HOLD 1
#endif
struct note_t { int id; vp_u64 value; };
using note_m = r::message_t<note_t>;
static sup_t *CUR; // the loop which runs now
#ifdef SIBLINGS
constexpr int OPS = VP_THOROUGH ? 4 : 3;
#else
constexpr int OPS = VP_THOROUGH ? 5 : 4;
#endif
constexpr int NOTES = OPS + 1;
static int SENDER[NOTES], N; static vp_u64 VALUE[NOTES];
struct rec_t { int count[NOTES] = {}; int last[2] = {-1, -1}; }; static int LIMIT[NOTES];
struct peer_t : actor_t { // receives the notes
    using actor_t::actor_t; rec_t rec; r::address_ptr_t at; bool early = false; sup_t *loop = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override { actor_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { if (early) s.subscribe_actor(&peer_t::on_note, at); }); }
    void on_note(note_m &m) noexcept {
        int id = m.payload.id; vp_check(CUR == loop, "a message is handled in the context of the loop of its recipient only");
        vp_check(id >= 0 && id < N && m.payload.value == VALUE[id], "a message arrives with its payload unchanged");
        vp_check(m.address == at, "a message arrives via the address it was sent to");
        ++rec.count[id];
        vp_check((int)state < (int)r::state_t::SHUT_DOWN, "an actor which is shut down handles nothing");
        int s = SENDER[id]; vp_check(rec.last[s] <= id, "messages of a sender are not reordered"); rec.last[s] = id;
    }
    void join() { subscribe(&peer_t::on_note, at); }
    void leave() { unsubscribe(&peer_t::on_note, at); }
};
struct plain_t : actor_t { using actor_t::actor_t; void tell(const r::address_ptr_t &a, int id) { send<note_t>(a, note_t{id, VALUE[id]}); } };
enum { SUB, UNSUB, COMMIT, MSG, CALL, DOWN };
struct token_t { int what, id; unsigned gens = 0; }; // gens: the subscriptions (bit mask) by which a message was forwarded
enum op_t { TELL_HERE, TELL_THERE, LEAVE, JOIN, STOP, STOP_LOOP };
int main() {
    run_t run;
    {
        N = 0; CUR = nullptr;
        bool early = vp_choice("early", 2);
#ifdef SIBLINGS // the loops are children of the root
        bool siblings = true;
#else
        bool siblings = false;
#endif
        {
            tree_t t(false, true); sup_ptr host = t.root; static const char third = 0;
            if (siblings) host = t.root->create_actor<sup_t>().timeout(ms(10)).locality(&third).name("host").finish();
            sup_t *loops[3] = {host.get(), t.far.get(), siblings ? t.root.get() : nullptr};
            auto owner = host->create_actor<peer_t>().timeout(ms(5)).finish(); auto here = host->create_actor<plain_t>().timeout(ms(5)).finish();
            auto there = t.far->create_actor<plain_t>().timeout(ms(5)).finish();
            auto addr = owner->get_address(); owner->at = addr; owner->early = true; owner->loop = host.get();
            auto f = t.far->create_actor<peer_t>().timeout(ms(5)).finish(); f->at = addr; f->early = early; f->loop = t.far.get();
            auto go = [&](sup_t *s) { CUR = s; s->do_process(); CUR = nullptr; };
            auto all = [&] { for (int i = 0; i < 64; ++i) { bool any = false; for (auto *s : loops) if (s && !s->leader_queue().empty()) { any = true; go(s); } if (!any) return; } vp_fail("the queues never become empty"); };
            all(); vp_check(state_of(*f) == r::state_t::OPERATIONAL && state_of(*t.root) == r::state_t::OPERATIONAL, "the tree starts");
            for (auto &l : LIMIT) l = 0;
            auto refs = addr->use_count();
            auto *fp = f.get(); bool gone = false, down = false, loop_gone = false, joined = early; int gen = 0; // the current subscription
            // the reference: what is under way in the loops
            std::vector<token_t> q[2]; unsigned known = early, active = early, leaving = 0; enum { NO, MAY, MUST } due[NOTES] = {};
            auto model = [&](int l) { // what happens in the run of a loop
                for (size_t i = 0; i < q[l].size(); ++i) {
                    auto k = q[l][i]; unsigned bit = 1u << k.id;
                    if (l == 1) switch (k.what) {
                        case SUB: case COMMIT: case MSG: q[0].push_back(k); break;
                        case UNSUB: active &= ~bit; leaving &= ~bit; q[1].push_back({COMMIT, k.id}); break;
                        case DOWN: down = true; break; // it takes some messages more
                        case CALL: LIMIT[k.id] = __builtin_popcount(k.gens & active); if (k.gens & active) { bool must = (k.gens & active & ~leaving) && !gone; if (due[k.id] != MUST) due[k.id] = must ? MUST : MAY; } break;
                    } else switch (k.what) {
                        case SUB: known |= bit; break; case COMMIT: known &= ~bit; break;
                        case MSG: if (known) q[1].push_back({CALL, k.id, known}); break;
                    }
                }
                q[l].clear();
                if (down) { down = false; for (int g = 0; g < 8; ++g) if (active & (1u << g)) q[0].push_back({COMMIT, g}); active = 0; }
            };
            auto settle = [&](bool quiet) {
                if (!fp) return;
                for (int i = 0; i < N; ++i) {
                    vp_check(due[i] == NO || fp->rec.count[i] <= LIMIT[i], "a message is handled once by a subscription");
                    if (due[i] == NO) vp_check(fp->rec.count[i] == 0, "an actor which is not subscribed does not get the message");
                    if (due[i] == MUST) vp_check(fp->rec.count[i] == 1, "a subscribed actor gets the message");
                    if (quiet) vp_check(owner->rec.count[i] == 1, "the other subscriber gets every message");
                }
            };
            for (int step = 0; step < OPS; ++step) {
                op_t ops[6]; unsigned n = 0;
                ops[n++] = TELL_HERE; if (!loop_gone) ops[n++] = TELL_THERE;
                if (!gone && joined) ops[n++] = LEAVE; if (!gone && !joined) ops[n++] = JOIN;
                if (!gone) ops[n++] = STOP; if (!gone) ops[n++] = STOP_LOOP;
                op_t op = ops[vp_choice("op", n)];
                switch (op) {
                case TELL_HERE: case TELL_THERE: {
                    int id = N++; SENDER[id] = op == TELL_THERE; VALUE[id] = vp_sym("value", 64);
                    (op == TELL_HERE ? here : there)->tell(addr, id); q[op == TELL_THERE].push_back({MSG, id}); break;
                }
                case JOIN: fp->join(); joined = true; ++gen; active |= 1u << gen; q[1].push_back({SUB, gen}); break;
                case LEAVE: fp->leave(); joined = false; leaving |= 1u << gen; q[1].push_back({UNSUB, gen}); break;
                case STOP: fp->do_shutdown(); gone = true; q[1].push_back({DOWN, 0}); if (!HOLD) { f.reset(); fp = nullptr; } break;
                case STOP_LOOP: t.far->do_shutdown(); gone = loop_gone = true; q[0].push_back({DOWN, 0}); if (!HOLD) { f.reset(); fp = nullptr; there.reset(); } break;
                }
                unsigned runs = vp_choice("runs", siblings ? 4 : 3); // they go on later, or one of them runs now
                if (runs) { auto *s = loops[runs - 1]; if (!s->leader_queue().empty()) go(s); if (runs < 3) model((int)runs - 1); settle(false); }
            }
            for (int i = 0; i < 64; ++i) {
                int c[3]; unsigned n = 0;
                for (int l = 0; l < 3; ++l) if (loops[l] && (!loops[l]->leader_queue().empty() || (l < 2 && !q[l].empty()))) c[n++] = l;
                if (!n) break;
                int l = c[n > 1 ? vp_choice("loop", n) : 0];
                if (!loops[l]->leader_queue().empty()) go(loops[l]);
                if (l < 2) model(l);
                settle(false);
            }
            settle(true);
            if (fp) { for (int i = 0; i < N; ++i) if (due[i] == MUST) vp_reach("got"); else if (due[i] == MAY && fp->rec.count[i]) vp_reach("got, leaving"); }
            if (gone) { vp_reach("stopped"); if (HOLD) { vp_check(state_of(*f) == r::state_t::SHUT_DOWN, "the actor shuts down"); vp_check(f->use_count() == 1, "nobody keeps an actor which is shut down"); } }
            if (!joined || gone) vp_check(addr->use_count() == refs - (early ? 2 : 0) - (!HOLD && gone), "both sides forget the subscription");
            vp_log("refs", refs); vp_log("refs.now", addr->use_count());
            vp_reach("end"); f.reset(); fp = nullptr; owner.reset(); addr.reset(); here.reset(); there.reset();
            t.root->do_shutdown(); for (int i = 0; i < 64; ++i) { bool any = false; for (auto *s : loops) if (s && !s->leader_queue().empty()) { any = true; go(s); } if (!any) break; }
            vp_check(state_of(*t.root) == r::state_t::SHUT_DOWN, "the tree shuts down"); vp_check(W->fatal == 0, "no fatal error is reported");
        }
    }
    run.done();
}
