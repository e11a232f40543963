// C22: a routed message comes to the follow-up address once, after every recipient has handled it
#include <vp_rotor.h>
using namespace vp;
struct note_t { vp_u64 value; int seq; };
using note_m = r::message_t<note_t>;
static sup_t *CUR; static vp_u64 VALUE[2]; static int EXPECT_BEFORE;
enum { ROOT, FAR, THIRD, LOOPS };
static sup_t *LOOP_[LOOPS]; static int HANDLED[2], ROUTED[2], NEXT[2], SENT;
static r::message_ptr_t *KEEP;
struct peer_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t at, follow; int loop = 0; bool joins = false, follows = false, keeps = false; int got[2] = {}, want[2] = {}; r::address_ptr_t redirect_to, redirect_next;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { if (joins) s.subscribe_actor(&peer_t::on_note, at); if (follows) s.subscribe_actor(&peer_t::on_follow, follow); });
    }
    void on_note(note_m &m) noexcept {
        int q = m.payload.seq; vp_check(CUR == LOOP_[loop], "a message is handled in the context of the loop of its recipient only");
        vp_check(m.payload.value == VALUE[q] && m.address == at, "a routed message arrives unchanged"); vp_check(ROUTED[q] == 0, "the follow-up comes after every recipient has handled the message");
        ++got[q]; ++HANDLED[q]; vp_check(got[q] == 1, "a recipient handles the message once"); if (keeps) *KEEP = &m;
    }
    void on_follow(note_m &m) noexcept {
        int q = m.payload.seq; vp_check(CUR == LOOP_[loop], "a message is handled in the context of the loop of its recipient only");
        vp_check(m.payload.value == VALUE[q] && m.address == follow, "a routed message arrives unchanged at the follow-up address"); ++ROUTED[q];
        vp_check(ROUTED[q] == 1, "a routed message comes to the follow-up address once");
        if (redirect_to) { redirect(&m, redirect_to, redirect_next); return; }
        vp_check(!m.next_route || m.next_route.get() != follow.get(), "a routed message is not routed again");
    }
};
// the message is sent on from the follow-up address, to a recipient and then to the last address
static int ON_WAY, LAST;
struct tail_t : actor_t {
    using actor_t::actor_t; r::address_ptr_t at, last; int loop = 0; bool mid = false, end = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        actor_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { if (mid) s.subscribe_actor(&tail_t::on_mid, at); if (end) s.subscribe_actor(&tail_t::on_last, last); });
    }
    void come(note_m &m) { vp_check(CUR == LOOP_[loop] && m.payload.value == VALUE[m.payload.seq] && ROUTED[m.payload.seq] == 1, "a redirected message arrives unchanged in the context of the loop"); }
    void on_mid(note_m &m) noexcept { come(m); ++ON_WAY; vp_check(ON_WAY == 1 && LAST == 0, "a redirected message is handled once, before its follow-up"); }
    void on_last(note_m &m) noexcept { come(m); ++LAST; vp_check(LAST == 1, "a redirected message comes to its follow-up once"); }
};
static r::intrusive_ptr_t<peer_t> P[3];
static void go(sup_t *s) { CUR = s; s->do_process(); CUR = nullptr; }
int main() {
    run_t run;
    {
        CUR = nullptr; for (int i = 0; i < 2; ++i) HANDLED[i] = ROUTED[i] = NEXT[i] = 0; r::message_ptr_t keep; KEEP = &keep;
        static const char third_loc = 0;
        // recipients below the root, on the second and on the third loop; who owns the follow-up address; who sends
        unsigned who = vp_choice("recipients", 8), owner = vp_choice("follow-up", 3), sender = vp_choice("sender", 2);
        bool two = vp_choice("two", 2); unsigned more = two ? 0 : vp_choice("more", 3); ON_WAY = LAST = 0; // 1: a recipient keeps the message, 2: it is redirected afterwards
        {
            tree_t t(false, true); auto third = t.root->create_actor<sup_t>().timeout(ms(10)).locality(&third_loc).name("third").finish();
            LOOP_[ROOT] = t.root.get(); LOOP_[FAR] = t.far.get(); LOOP_[THIRD] = third.get();
            auto all = [&] { for (int i = 0; i < 64; ++i) { bool any = false; for (auto *s : LOOP_) if (!s->leader_queue().empty()) { any = true; go(s); } if (!any) return; } vp_fail("the queues never become empty"); };
            auto addr = t.root->make_address();
            auto sink = LOOP_[owner]->create_actor<peer_t>().timeout(ms(5)).finish(); sink->loop = (int)owner; sink->follows = true; sink->follow = sink->get_address();
            for (int i = 0; i < 3; ++i) { P[i] = LOOP_[i]->create_actor<peer_t>().timeout(ms(5)).finish(); P[i]->loop = i; P[i]->at = addr; P[i]->joins = who & (1u << i); }
            r::intrusive_ptr_t<tail_t> mid, last;
            if (more == 1) { if (!who) vp_end(); int k = 0; while (!(who & (1u << k))) ++k; P[k]->keeps = true; }
            if (more == 2) {
                unsigned w = vp_choice("way", 4); // with or without a recipient on its way, the last one on the same loop or on another one
                sink->redirect_to = t.far->make_address(); int l = w & 2 ? (int)owner : ((int)owner + 1) % 3;
                last = LOOP_[l]->create_actor<tail_t>().timeout(ms(5)).finish(); last->loop = l; last->end = true; last->last = sink->redirect_next = last->get_address();
                if (w & 1) { mid = third->create_actor<tail_t>().timeout(ms(5)).finish(); mid->loop = THIRD; mid->mid = true; mid->at = sink->redirect_to; }
            }
            all(); for (auto &p : P) vp_check(state_of(*p) == r::state_t::OPERATIONAL, "the tree starts");
            unsigned stops = more ? 3 : vp_choice("stops", 4); // a recipient terminates, when the message is under way
            bool leaves = stops < 3 && P[stops]->joins && vp_choice("leaves", 2);
            unsigned when = stops < 3 ? vp_choice("when", 3) : 0; // before it is sent, at once, or somewhat later
            if (stops < 3 && !P[stops]->joins) vp_end();
            auto stop = [&] { if (leaves) P[stops]->unsubscribe(&peer_t::on_note, addr); else P[stops]->do_shutdown(); };
            if (stops < 3 && when == 0) stop();
            auto refs = addr->use_count();
            (void)refs;
            for (int q = 0; q < (two ? 2 : 1); ++q) {
                VALUE[q] = vp_sym("value", 64);
                auto *s = LOOP_[sender]; // the handler of an actor of the loop
                if (q) s->put(r::make_routed_message<note_t>(addr, sink->get_address(), note_t{VALUE[q], q})); else s->route<note_t>(addr, sink->get_address(), note_t{VALUE[q], q});
                ++SENT;
            }
            if (stops < 3 && when == 1) stop();
            bool stopped = stops == 3 || when != 2; int steps = 0;
            for (int i = 0; i < 64; ++i) {
                int c[4]; unsigned n = 0; for (int l = 0; l < LOOPS; ++l) if (!LOOP_[l]->leader_queue().empty()) c[n++] = l;
                if (!n && stopped) break;
                unsigned extra = !stopped && ++steps <= 4 ? 1 : 0; if (!n) extra = 1;
                unsigned k = n + extra > 1 ? vp_choice("loop", n + extra) : 0;
                if (k == n) { stop(); stopped = true; if (!leaves) P[stops].reset(); continue; } // nobody else holds it
                go(LOOP_[c[k]]);
            }
            if (stops < 3 && when < 2 && !leaves) P[stops].reset();
            if (more == 1) { vp_check(ROUTED[0] == 0 && keep, "a message which is kept is not routed"); sink->redirect(std::move(keep), sink->get_address()); all(); vp_reach("redirected"); }
            if (more == 2) { vp_check(LAST == 1 && ON_WAY == (mid ? 1 : 0), "a redirected message comes to its recipients and its follow-up"); vp_reach("redirected twice"); }
            for (int q = 0; q < (two ? 2 : 1); ++q) {
                for (int i = 0; i < 3; ++i) if ((int)stops != i) vp_check(P[i]->got[q] == (P[i]->joins ? 1 : 0), "every recipient handles the message");
                vp_check(ROUTED[q] == 1, "a routed message comes to the follow-up address");
                if (HANDLED[q] == 0) vp_reach("no recipient"); if (HANDLED[q] == 3) vp_reach("three recipients");
            }
            vp_reach("end");
            for (auto &p : P) p.reset(); sink.reset(); mid.reset(); last.reset(); keep.reset();
            t.root->do_shutdown(); all(); vp_check(state_of(*t.root) == r::state_t::SHUT_DOWN && W->fatal == 0, "the tree shuts down");
        }
    }
    run.done();
}
